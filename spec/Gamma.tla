-------------------------------- MODULE Gamma --------------------------------
(***************************************************************************)
(* Transfer functions of sharp YUV: for every gamma-encoded 8-bit sample v *)
(* the least 16-bit light whose sample is v or more, i.e. the ceiling of   *)
(* 65535 * linear(v / 255).  Generated by tools/gen_gamma.py from the      *)
(* formulas of IEC 61966-2-1 and ITU-R BT.709.                             *)
(***************************************************************************)
GammaTab == <<
  \* sRGB
  <<0, 20, 40, 60, 80, 100, 120, 140, 160, 180, 199, 220, 241, 264, 288, 314,
    340, 368, 397, 427, 459, 492, 526, 562, 599, 638, 678, 719, 762, 806, 851, 899,
    947, 997, 1049, 1102, 1157, 1213, 1271, 1330, 1391, 1454, 1518, 1584, 1651, 1720, 1791, 1864,
    1938, 2013, 2091, 2170, 2251, 2334, 2418, 2504, 2592, 2682, 2774, 2867, 2962, 3059, 3158, 3258,
    3361, 3465, 3571, 3679, 3789, 3901, 4014, 4130, 4248, 4367, 4488, 4612, 4737, 4864, 4994, 5125,
    5258, 5393, 5530, 5670, 5811, 5954, 6099, 6247, 6396, 6548, 6701, 6857, 7015, 7174, 7336, 7500,
    7666, 7835, 8005, 8178, 8352, 8529, 8708, 8890, 9073, 9258, 9446, 9636, 9828, 10023, 10219, 10418,
    10619, 10823, 11028, 11236, 11446, 11659, 11873, 12090, 12310, 12531, 12755, 12981, 13210, 13441, 13674, 13909,
    14147, 14387, 14630, 14875, 15122, 15372, 15624, 15879, 16136, 16395, 16657, 16921, 17187, 17456, 17728, 18002,
    18278, 18557, 18838, 19122, 19408, 19697, 19988, 20282, 20578, 20877, 21178, 21482, 21788, 22097, 22408, 22722,
    23038, 23357, 23679, 24003, 24330, 24659, 24991, 25325, 25663, 26002, 26344, 26689, 27037, 27387, 27740, 28095,
    28453, 28814, 29177, 29543, 29912, 30283, 30657, 31034, 31413, 31795, 32180, 32567, 32957, 33350, 33746, 34144,
    34545, 34949, 35356, 35765, 36177, 36592, 37009, 37429, 37852, 38278, 38707, 39138, 39573, 40010, 40449, 40892,
    41337, 41786, 42237, 42691, 43147, 43607, 44069, 44535, 45003, 45474, 45947, 46424, 46904, 47386, 47871, 48360,
    48851, 49345, 49842, 50341, 50844, 51350, 51858, 52370, 52884, 53402, 53922, 54445, 54971, 55500, 56033, 56568,
    57106, 57647, 58191, 58738, 59288, 59840, 60396, 60955, 61517, 62082, 62650, 63221, 63795, 64372, 64952, 65535>>,
  \* Rec. 709
  <<0, 58, 115, 172, 229, 286, 343, 400, 457, 514, 572, 629, 686, 743, 800, 857,
    914, 971, 1028, 1086, 1143, 1200, 1258, 1318, 1379, 1442, 1507, 1573, 1640, 1709, 1780, 1852,
    1926, 2002, 2079, 2157, 2238, 2320, 2403, 2488, 2575, 2663, 2753, 2845, 2938, 3033, 3130, 3229,
    3329, 3430, 3534, 3639, 3746, 3854, 3964, 4076, 4190, 4305, 4422, 4541, 4661, 4784, 4908, 5033,
    5161, 5290, 5421, 5554, 5689, 5825, 5963, 6103, 6245, 6388, 6533, 6680, 6829, 6980, 7133, 7287,
    7443, 7601, 7761, 7922, 8086, 8251, 8418, 8587, 8758, 8930, 9105, 9281, 9460, 9640, 9822, 10006,
    10191, 10379, 10568, 10760, 10953, 11148, 11345, 11544, 11745, 11948, 12152, 12359, 12568, 12778, 12990, 13205,
    13421, 13639, 13859, 14081, 14305, 14531, 14759, 14989, 15220, 15454, 15690, 15927, 16167, 16409, 16652, 16898,
    17145, 17395, 17646, 17900, 18155, 18413, 18672, 18933, 19197, 19462, 19730, 19999, 20271, 20544, 20820, 21097,
    21377, 21658, 21942, 22227, 22515, 22805, 23096, 23390, 23686, 23984, 24284, 24586, 24890, 25196, 25504, 25814,
    26126, 26441, 26757, 27076, 27396, 27719, 28043, 28370, 28699, 29030, 29363, 29698, 30035, 30374, 30716, 31059,
    31405, 31753, 32102, 32454, 32808, 33165, 33523, 33883, 34246, 34610, 34977, 35346, 35717, 36090, 36465, 36843,
    37222, 37604, 37988, 38374, 38762, 39152, 39545, 39939, 40336, 40735, 41136, 41539, 41944, 42352, 42762, 43174,
    43588, 44004, 44422, 44843, 45266, 45691, 46118, 46547, 46978, 47412, 47848, 48286, 48726, 49169, 49614, 50060,
    50510, 50961, 51414, 51870, 52328, 52788, 53251, 53715, 54182, 54651, 55122, 55596, 56071, 56549, 57029, 57512,
    57996, 58483, 58972, 59464, 59957, 60453, 60951, 61452, 61954, 62459, 62966, 63476, 63987, 64501, 65017, 65535>>,
  \* gamma 2.2
  <<0, 1, 2, 4, 8, 12, 18, 25, 33, 42, 53, 66, 79, 94, 111, 129,
    149, 170, 193, 217, 243, 270, 299, 330, 362, 396, 432, 469, 508, 549, 592, 636,
    682, 730, 779, 830, 883, 938, 995, 1053, 1114, 1176, 1240, 1306, 1374, 1443, 1515, 1588,
    1663, 1740, 1819, 1900, 1983, 2068, 2155, 2244, 2334, 2427, 2522, 2618, 2717, 2818, 2920, 3025,
    3131, 3240, 3351, 3463, 3578, 3695, 3814, 3935, 4058, 4183, 4310, 4439, 4570, 4703, 4839, 4976,
    5116, 5258, 5402, 5547, 5696, 5846, 5998, 6153, 6309, 6468, 6629, 6792, 6957, 7125, 7295, 7466,
    7640, 7816, 7995, 8175, 8358, 8543, 8730, 8920, 9111, 9305, 9501, 9700, 9900, 10103, 10308, 10515,
    10725, 10936, 11151, 11367, 11585, 11806, 12029, 12255, 12482, 12712, 12945, 13179, 13416, 13655, 13897, 14141,
    14387, 14635, 14886, 15139, 15394, 15652, 15912, 16175, 16439, 16706, 16976, 17248, 17522, 17798, 18077, 18358,
    18642, 18928, 19216, 19507, 19800, 20096, 20394, 20694, 20997, 21302, 21609, 21919, 22232, 22546, 22863, 23183,
    23505, 23829, 24156, 24485, 24817, 25151, 25488, 25827, 26168, 26512, 26858, 27207, 27558, 27912, 28268, 28627,
    28988, 29352, 29718, 30086, 30457, 30831, 31207, 31585, 31966, 32350, 32736, 33124, 33515, 33908, 34304, 34703,
    35104, 35507, 35913, 36322, 36733, 37146, 37562, 37981, 38402, 38826, 39252, 39681, 40112, 40546, 40982, 41421,
    41863, 42307, 42754, 43203, 43654, 44109, 44566, 45025, 45487, 45952, 46419, 46889, 47361, 47836, 48313, 48793,
    49276, 49761, 50249, 50739, 51233, 51728, 52226, 52727, 53231, 53737, 54246, 54757, 55271, 55787, 56306, 56828,
    57353, 57880, 58409, 58942, 59477, 60014, 60554, 61097, 61643, 62191, 62742, 63295, 63851, 64410, 64971, 65535>>,
  \* gamma 2.8
  <<0, 1, 1, 1, 1, 2, 2, 3, 5, 6, 8, 10, 13, 16, 20, 24,
    29, 34, 40, 46, 53, 61, 69, 78, 88, 99, 110, 122, 135, 149, 164, 180,
    197, 214, 233, 253, 273, 295, 318, 342, 367, 393, 421, 449, 479, 510, 542, 576,
    611, 647, 685, 724, 764, 806, 849, 894, 940, 988, 1037, 1088, 1141, 1195, 1250, 1308,
    1367, 1427, 1489, 1553, 1619, 1687, 1756, 1827, 1900, 1975, 2052, 2130, 2211, 2293, 2377, 2464,
    2552, 2642, 2735, 2829, 2926, 3024, 3125, 3228, 3333, 3440, 3549, 3660, 3774, 3890, 4008, 4129,
    4252, 4377, 4504, 4634, 4767, 4901, 5038, 5178, 5320, 5464, 5611, 5761, 5913, 6067, 6224, 6384,
    6546, 6711, 6879, 7049, 7222, 7398, 7576, 7757, 7941, 8128, 8318, 8510, 8705, 8903, 9104, 9308,
    9514, 9724, 9936, 10152, 10370, 10592, 10816, 11044, 11274, 11508, 11745, 11985, 12227, 12474, 12723, 12975,
    13231, 13490, 13752, 14017, 14286, 14558, 14833, 15112, 15393, 15679, 15967, 16259, 16555, 16854, 17156, 17462,
    17771, 18084, 18400, 18720, 19043, 19370, 19700, 20034, 20372, 20714, 21059, 21407, 21760, 22116, 22475, 22839,
    23206, 23577, 23952, 24331, 24713, 25100, 25490, 25884, 26282, 26684, 27090, 27500, 27913, 28331, 28753, 29178,
    29608, 30042, 30480, 30922, 31368, 31818, 32272, 32731, 33193, 33660, 34131, 34606, 35086, 35569, 36057, 36550,
    37046, 37547, 38052, 38562, 39076, 39594, 40117, 40644, 41175, 41711, 42252, 42797, 43346, 43900, 44458, 45021,
    45589, 46161, 46738, 47319, 47905, 48496, 49091, 49691, 50296, 50905, 51519, 52138, 52762, 53390, 54023, 54661,
    55304, 55952, 56604, 57261, 57924, 58591, 59263, 59940, 60622, 61309, 62001, 62698, 63399, 64106, 64818, 65535>>>>
=============================================================================
