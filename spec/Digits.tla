------------------------------- MODULE Digits --------------------------------
(* Constants times 10^CDigits, as BigInt.tla represents integers; see Reals.tla *)
CDigits == 1400
PiC == <<
  1, 2420, 2699, 2604, 9927, 9141, 3263, 9647, 2474, 7640, 3558, 4300, 3382, 1125, 1935, 8150, 5803, 240, 6966, 6205,
  7521, 2104, 8915, 289, 3677, 9331, 4912, 9069, 8425, 466, 6208, 3464, 475, 7104, 2684, 7747, 5379, 4825, 4494, 7837,
  4676, 1989, 5596, 4295, 1819, 4710, 6010, 7076, 3563, 6160, 8583, 4012, 4882, 98, 1139, 167, 9277, 400, 5506, 3192,
  4939, 3746, 7546, 8381, 7509, 8890, 7855, 6172, 1168, 9533, 5082, 6959, 4150, 4245, 8572, 5574, 3151, 4791, 5283,
  2177, 2497, 3891, 9941, 6225, 5773, 6899, 8529, 5301, 5203, 3019, 8230, 2796, 3818, 6153, 6593, 2788, 5863, 6548,
  2010, 5257, 3809, 1989, 6420, 921, 1959, 6611, 2787, 19, 6613, 2680, 1712, 532, 5778, 7818, 1957, 9375, 7875, 2353,
  6388, 5628, 1159, 6873, 7554, 428, 5349, 5982, 7303, 6914, 1776, 617, 8142, 2083, 7533, 8658, 7528, 7838, 313, 100,
  8171, 3118, 2619, 5035, 4468, 2533, 2308, 4252, 3026, 6908, 5534, 4594, 5024, 1859, 963, 2816, 3173, 597, 9951,
  7804, 3729, 9998, 4999, 2113, 8707, 6051, 3099, 4771, 2977, 8136, 8159, 3441, 8640, 1960, 2902, 1121, 9956, 4201,
  9235, 9258, 7968, 7922, 1050, 8537, 5495, 146, 5343, 2249, 901, 6844, 7214, 7178, 7363, 6091, 7789, 4275, 7713,
  7785, 6082, 2635, 7145, 6812, 5, 5132, 6940, 4676, 4818, 8467, 7523, 3176, 7629, 2171, 539, 277, 9437, 9860, 217,
  1907, 4737, 9522, 9463, 1394, 8602, 6430, 656, 6244, 6733, 9833, 4912, 119, 8183, 2793, 8912, 2724, 8575, 3518,
  9567, 6274, 3799, 4462, 4807, 1185, 3105, 1179, 9326, 7381, 8611, 921, 1953, 5959, 3657, 7270, 3305, 6094, 1511,
  5194, 1469, 1384, 6652, 8204, 548, 3053, 113, 360, 9259, 3678, 5364, 9171, 2540, 2829, 2096, 5209, 4881, 8817, 3155,
  6606, 8700, 7245, 1273, 4914, 2602, 3607, 1339, 6482, 4326, 1045, 3486, 3460, 6692, 6485, 9145, 190, 2712, 3165,
  8678, 2337, 5648, 2847, 4461, 5933, 7566, 8109, 4428, 8196, 9303, 8954, 2294, 6446, 5559, 2110, 9385, 2701, 8410,
  4502, 1117, 2848, 4081, 5359, 3172, 5822, 9550, 4460, 938, 6647, 8230, 5132, 8086, 8214, 679, 2117, 2534, 348, 8628,
  899, 2862, 6406, 781, 5923, 4944, 2097, 1058, 9375, 6939, 1971, 2884, 7950, 3832, 2643, 3846, 7932, 3589, 9265,
  1415, 3
>>
Ln10C == <<
  1, 592, 5764, 4787, 4135, 7266, 7760, 6092, 8745, 3040, 8215, 2629, 3604, 3096, 7783, 2528, 3091, 2456, 6753, 1824,
  4471, 5916, 3685, 5239, 4319, 6639, 7986, 7921, 1759, 8988, 1894, 3252, 3978, 1042, 1073, 1110, 7660, 8213, 417,
  1145, 6773, 2763, 1779, 5054, 1778, 9162, 6600, 4073, 2174, 2898, 7163, 6983, 6583, 7633, 2819, 9704, 1908, 6546,
  6484, 1135, 1596, 315, 5557, 5727, 1633, 4168, 2654, 4170, 3919, 9880, 2900, 6509, 7298, 374, 7925, 2230, 9129,
  3191, 8438, 759, 3101, 6692, 7184, 2410, 4666, 1593, 1469, 8131, 997, 4450, 3854, 5119, 597, 7828, 4980, 7058, 916,
  6862, 1345, 7377, 7488, 9978, 9884, 4921, 2571, 1086, 9651, 7286, 6528, 1972, 4634, 514, 5392, 7238, 3950, 1893,
  205, 9218, 8886, 4970, 1037, 6975, 5187, 3956, 7505, 7709, 2535, 2375, 4318, 9182, 2992, 5610, 1909, 6480, 5045,
  8238, 8274, 4309, 1705, 7781, 3591, 4386, 4275, 1808, 4142, 3315, 7547, 9785, 1011, 333, 2371, 8075, 5087, 599,
  3095, 7164, 2631, 6067, 3207, 6538, 7852, 5509, 258, 7985, 2582, 2932, 7094, 2425, 7266, 7347, 4549, 1826, 1107,
  9522, 7697, 6629, 6938, 6763, 7765, 2214, 5049, 9510, 4714, 6500, 1979, 2507, 442, 4857, 4183, 1667, 4967, 5952,
  6860, 276, 5397, 7577, 2712, 9676, 2780, 8719, 8644, 2494, 8485, 9314, 8428, 4811, 2808, 6928, 1682, 9940, 4746,
  3708, 5440, 7207, 6345, 3089, 570, 2301, 1660, 8714, 3765, 2033, 1929, 3569, 6311, 5677, 9402, 6758, 8901, 6956,
  1314, 824, 7242, 8925, 575, 5544, 9224, 3642, 5811, 670, 7342, 9356, 6856, 5058, 7465, 4916, 268, 2775, 8000, 7064,
  4450, 1806, 9210, 6167, 3463, 4768, 8569, 747, 7345, 1213, 5659, 6371, 8046, 114, 5522, 2283, 3216, 6774, 6855,
  7080, 1264, 840, 3688, 4800, 1417, 1017, 2105, 22, 4044, 9619, 9147, 9393, 4314, 4893, 1550, 4365, 4327, 4042, 7474,
  4366, 7465, 9886, 9821, 2876, 6222, 6336, 8461, 2628, 7773, 9653, 5308, 9350, 5283, 3198, 2623, 8948, 3799, 8084,
  5546, 8325, 720, 4829, 1689, 9878, 3690, 6287, 5666, 8067, 5082, 2546, 4095, 8633, 8624, 422, 7784, 4196, 2983,
  9598, 508, 9972, 235, 5248, 6773, 2609, 6757, 9009, 3327, 7603, 7729, 8628, 148, 6011, 4207, 8436, 4546, 7991, 8401,
  456, 2994, 8509, 3025, 2
>>
EC == <<
  1, 9535, 6449, 491, 590, 191, 5164, 2772, 4816, 6566, 3338, 2779, 8326, 2264, 926, 2562, 5778, 5092, 2278, 2549,
  161, 7998, 4833, 2944, 3755, 7026, 5743, 7963, 4124, 8934, 238, 4174, 3721, 8636, 5294, 4423, 8182, 4507, 5164,
  3422, 8961, 8364, 2722, 4774, 1120, 162, 3637, 3802, 6956, 9185, 7545, 6409, 9709, 4896, 5894, 3985, 8675, 2527,
  1943, 6677, 2123, 3059, 2010, 4665, 9512, 1341, 1787, 8265, 798, 6256, 4471, 2268, 716, 5557, 6403, 7696, 8868,
  7250, 7329, 1699, 6604, 3503, 7709, 9577, 419, 473, 8539, 5015, 2474, 332, 5193, 8023, 6278, 1005, 7012, 681, 4321,
  1933, 8498, 3407, 212, 354, 7035, 8895, 1546, 1267, 6552, 3969, 687, 9861, 1718, 7704, 1574, 5101, 3750, 1038, 2085,
  3107, 6130, 5490, 4563, 9271, 1405, 4378, 9642, 7683, 7016, 8870, 6908, 6183, 5209, 2531, 546, 4364, 7381, 3431,
  1409, 1463, 1849, 6994, 3043, 235, 6099, 21, 3209, 7862, 419, 4827, 3362, 5602, 8487, 4496, 4632, 4363, 9844, 4841,
  9610, 4927, 8257, 6805, 9208, 4998, 9228, 2287, 5894, 6738, 7386, 8072, 9345, 8851, 5988, 351, 4169, 5930, 1881,
  9618, 2509, 9811, 3206, 3613, 6717, 175, 8153, 9455, 981, 7825, 2328, 1180, 2953, 4804, 7646, 2823, 683, 7932, 8376,
  7019, 4039, 4161, 7068, 3819, 3012, 3117, 944, 3625, 3320, 8879, 8294, 9239, 2093, 1058, 6465, 9849, 8693, 2528,
  3318, 6680, 5193, 6989, 2082, 1482, 7635, 2295, 4999, 1542, 1782, 7736, 9312, 987, 9230, 3688, 9316, 5987, 5490,
  8644, 7946, 6996, 4499, 785, 9677, 9536, 5056, 8442, 3897, 1252, 7211, 4637, 8657, 1510, 255, 6819, 9283, 1416,
  9310, 7720, 6969, 7230, 4704, 4437, 9127, 2870, 7093, 3200, 3711, 6067, 297, 2656, 9338, 2044, 75, 5830, 1384, 6133,
  6062, 1838, 276, 5517, 2069, 4499, 777, 7539, 3710, 4424, 2345, 5374, 4118, 8477, 16, 2648, 8082, 6066, 7614, 9244,
  6750, 8841, 9934, 8914, 1540, 702, 8793, 8341, 1573, 1901, 2510, 3195, 8075, 8298, 3233, 9076, 9434, 8627, 3232,
  7381, 5630, 6059, 2952, 334, 7290, 435, 6629, 1359, 8174, 9921, 305, 9320, 6391, 2746, 4274, 5166, 7852, 3821, 4571,
  4759, 3535, 6630, 2407, 6277, 6967, 7496, 9595, 3699, 4709, 7572, 2497, 5266, 4713, 287, 3536, 452, 8459, 8182,
  7182, 2
>>
=============================================================================
