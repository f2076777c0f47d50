-------------------------------- MODULE Srgb --------------------------------
(* The sRGB transfer function.  Values are fixed point: colours have 16       *)
(* fractional bits, linear light has 24.  LinTable holds the function at      *)
(* k/1024 for 0 <= k <= 2048 (colours up to 2); between them it is            *)
(* interpolated, which is exact to 7 units of 2^-24 as its curvature is small.*)
(* (Generated by lib/mksrgb.py with 40 digit arithmetic.)                     *)
EXTENDS Integers, Sequences

LinTable == <<
  0, 1268, 2536, 3804, 5072, 6341, 7609, 8877, 10145, 11413, 12681, 13949, 15217, 16485,
  17754, 19022, 20290, 21558, 22826, 24094, 25362, 26630, 27898, 29167, 30435, 31703, 32971, 34239,
  35507, 36775, 38043, 39311, 40580, 41848, 43116, 44384, 45652, 46920, 48188, 49456, 50724, 51993,
  53276, 54586, 55914, 57261, 58627, 60012, 61415, 62838, 64279, 65740, 67219, 68718, 70237, 71774,
  73332, 74908, 76505, 78121, 79756, 81412, 83087, 84782, 86498, 88233, 89989, 91764, 93560, 95377,
  97214, 99071, 100949, 102847, 104766, 106706, 108666, 110648, 112650, 114673, 116718, 118783, 120870, 122978,
  125107, 127257, 129429, 131623, 133837, 136074, 138332, 140612, 142914, 145237, 147582, 149950, 152339, 154750,
  157184, 159639, 162117, 164617, 167140, 169685, 172252, 174842, 177454, 180090, 182747, 185428, 188131, 190857,
  193606, 196378, 199174, 201992, 204833, 207697, 210585, 213496, 216430, 219388, 222369, 225374, 228402, 231454,
  234529, 237628, 240751, 243898, 247068, 250263, 253481, 256724, 259990, 263281, 266595, 269934, 273298, 276685,
  280097, 283534, 286995, 290480, 293990, 297524, 301084, 304668, 308276, 311910, 315568, 319252, 322960, 326693,
  330451, 334235, 338043, 341877, 345736, 349620, 353530, 357465, 361425, 365411, 369423, 373460, 377522, 381611,
  385725, 389864, 394030, 398221, 402439, 406682, 410951, 415246, 419568, 423915, 428289, 432688, 437115, 441567,
  446046, 450551, 455082, 459640, 464225, 468836, 473474, 478138, 482829, 487547, 492291, 497063, 501861, 506686,
  511538, 516417, 521324, 526257, 531217, 536205, 541219, 546261, 551331, 556427, 561551, 566703, 571882, 577088,
  582322, 587583, 592873, 598189, 603534, 608906, 614306, 619734, 625190, 630674, 636185, 641725, 647293, 652888,
  658512, 664164, 669845, 675553, 681290, 687055, 692848, 698670, 704520, 710399, 716306, 722242, 728207, 734200,
  740221, 746272, 752351, 758459, 764596, 770761, 776956, 783179, 789432, 795713, 802024, 808364, 814732, 821130,
  827557, 834014, 840500, 847015, 853559, 860133, 866736, 873369, 880031, 886723, 893444, 900195, 906976, 913786,
  920627, 927496, 934396, 941326, 948285, 955275, 962294, 969343, 976423, 983532, 990671, 997841, 1005041, 1012271,
  1019531, 1026822, 1034143, 1041494, 1048876, 1056288, 1063730, 1071203, 1078707, 1086241, 1093806, 1101401, 1109027, 1116684,
  1124372, 1132090, 1139839, 1147619, 1155430, 1163272, 1171145, 1179049, 1186983, 1194949, 1202946, 1210974, 1219033, 1227124,
  1235246, 1243399, 1251583, 1259798, 1268045, 1276324, 1284634, 1292975, 1301348, 1309752, 1318188, 1326656, 1335155, 1343686,
  1352248, 1360843, 1369469, 1378127, 1386816, 1395538, 1404291, 1413077, 1421894, 1430744, 1439625, 1448539, 1457485, 1466463,
  1475473, 1484515, 1493589, 1502696, 1511835, 1521007, 1530210, 1539447, 1548715, 1558016, 1567350, 1576716, 1586115, 1595546,
  1605010, 1614507, 1624036, 1633598, 1643193, 1652820, 1662481, 1672174, 1681900, 1691659, 1701451, 1711276, 1721134, 1731026,
  1740950, 1750907, 1760897, 1770921, 1780978, 1791068, 1801191, 1811348, 1821538, 1831761, 1842018, 1852308, 1862631, 1872988,
  1883379, 1893803, 1904261, 1914752, 1925277, 1935835, 1946428, 1957054, 1967714, 1978407, 1989135, 1999896, 2010691, 2021520,
  2032383, 2043280, 2054211, 2065176, 2076175, 2087208, 2098276, 2109377, 2120513, 2131683, 2142887, 2154125, 2165398, 2176705,
  2188046, 2199422, 2210832, 2222277, 2233756, 2245270, 2256818, 2268401, 2280018, 2291671, 2303357, 2315079, 2326835, 2338626,
  2350451, 2362312, 2374207, 2386137, 2398102, 2410102, 2422137, 2434207, 2446312, 2458452, 2470627, 2482837, 2495083, 2507363,
  2519679, 2532029, 2544416, 2556837, 2569294, 2581786, 2594313, 2606876, 2619474, 2632107, 2644776, 2657481, 2670221, 2682997,
  2695808, 2708655, 2721537, 2734455, 2747409, 2760399, 2773424, 2786485, 2799582, 2812715, 2825884, 2839088, 2852329, 2865605,
  2878917, 2892266, 2905650, 2919071, 2932527, 2946020, 2959549, 2973114, 2986715, 3000352, 3014026, 3027736, 3041482, 3055265,
  3069084, 3082939, 3096831, 3110759, 3124724, 3138725, 3152763, 3166837, 3180948, 3195096, 3209280, 3223501, 3237758, 3252052,
  3266383, 3280751, 3295155, 3309597, 3324075, 3338590, 3353142, 3367731, 3382357, 3397020, 3411719, 3426456, 3441230, 3456041,
  3470890, 3485775, 3500697, 3515657, 3530654, 3545688, 3560760, 3575868, 3591014, 3606198, 3621419, 3636677, 3651973, 3667306,
  3682676, 3698084, 3713530, 3729013, 3744534, 3760093, 3775689, 3791323, 3806994, 3822703, 3838450, 3854235, 3870057, 3885918,
  3901816, 3917752, 3933726, 3949738, 3965788, 3981875, 3998001, 4014165, 4030367, 4046607, 4062885, 4079201, 4095556, 4111948,
  4128379, 4144848, 4161356, 4177901, 4194485, 4211107, 4227768, 4244467, 4261204, 4277980, 4294794, 4311647, 4328538, 4345468,
  4362437, 4379444, 4396489, 4413573, 4430696, 4447858, 4465058, 4482297, 4499575, 4516892, 4534247, 4551641, 4569074, 4586546,
  4604057, 4621607, 4639196, 4656824, 4674490, 4692196, 4709941, 4727725, 4745548, 4763410, 4781312, 4799252, 4817232, 4835251,
  4853309, 4871407, 4889544, 4907720, 4925935, 4944190, 4962484, 4980818, 4999191, 5017604, 5036056, 5054548, 5073079, 5091650,
  5110260, 5128910, 5147600, 5166329, 5185098, 5203907, 5222755, 5241644, 5260572, 5279539, 5298547, 5317595, 5336682, 5355809,
  5374977, 5394184, 5413431, 5432718, 5452045, 5471412, 5490820, 5510267, 5529755, 5549282, 5568850, 5588458, 5608107, 5627795,
  5647524, 5667293, 5687102, 5706952, 5726842, 5746772, 5766743, 5786754, 5806806, 5826898, 5847031, 5867204, 5887418, 5907672,
  5927967, 5948302, 5968678, 5989095, 6009553, 6030051, 6050590, 6071169, 6091790, 6112451, 6133153, 6153896, 6174680, 6195504,
  6216370, 6237276, 6258224, 6279212, 6300242, 6321312, 6342423, 6363576, 6384770, 6406004, 6427280, 6448597, 6469956, 6491355,
  6512796, 6534278, 6555801, 6577366, 6598971, 6620619, 6642307, 6664037, 6685808, 6707621, 6729475, 6751371, 6773308, 6795287,
  6817308, 6839369, 6861473, 6883618, 6905805, 6928033, 6950303, 6972615, 6994968, 7017364, 7039801, 7062279, 7084800, 7107362,
  7129967, 7152613, 7175301, 7198031, 7220803, 7243617, 7266473, 7289371, 7312311, 7335293, 7358317, 7381383, 7404491, 7427642,
  7450834, 7474069, 7497346, 7520666, 7544027, 7567431, 7590877, 7614365, 7637896, 7661469, 7685085, 7708743, 7732443, 7756186,
  7779971, 7803799, 7827669, 7851582, 7875538, 7899535, 7923576, 7947659, 7971785, 7995954, 8020165, 8044419, 8068715, 8093055,
  8117437, 8141862, 8166330, 8190840, 8215394, 8239990, 8264629, 8289312, 8314037, 8338805, 8363616, 8388470, 8413367, 8438307,
  8463290, 8488317, 8513386, 8538499, 8563655, 8588854, 8614096, 8639381, 8664710, 8690082, 8715497, 8740955, 8766457, 8792002,
  8817591, 8843223, 8868898, 8894617, 8920379, 8946184, 8972034, 8997926, 9023862, 9049842, 9075866, 9101933, 9128043, 9154197,
  9180395, 9206637, 9232922, 9259251, 9285624, 9312040, 9338501, 9365005, 9391553, 9418144, 9444780, 9471459, 9498183, 9524950,
  9551762, 9578617, 9605516, 9632459, 9659447, 9686478, 9713554, 9740673, 9767837, 9795045, 9822297, 9849593, 9876933, 9904318,
  9931747, 9959220, 9986737, 10014299, 10041905, 10069555, 10097250, 10124989, 10152772, 10180600, 10208472, 10236389, 10264350, 10292356,
  10320406, 10348501, 10376640, 10404824, 10433053, 10461326, 10489644, 10518007, 10546414, 10574866, 10603362, 10631904, 10660490, 10689121,
  10717796, 10746517, 10775282, 10804093, 10832948, 10861848, 10890793, 10919783, 10948818, 10977898, 11007022, 11036192, 11065407, 11094667,
  11123972, 11153323, 11182718, 11212158, 11241644, 11271175, 11300751, 11330372, 11360038, 11389750, 11419507, 11449309, 11479157, 11509050,
  11538988, 11568972, 11599001, 11629076, 11659196, 11689361, 11719572, 11749828, 11780130, 11810478, 11840871, 11871309, 11901794, 11932323,
  11962899, 11993520, 12024187, 12054899, 12085657, 12116461, 12147311, 12178206, 12209148, 12240135, 12271167, 12302246, 12333371, 12364541,
  12395757, 12427020, 12458328, 12489682, 12521082, 12552528, 12584021, 12615559, 12647143, 12678774, 12710450, 12742173, 12773941, 12805756,
  12837617, 12869524, 12901478, 12933478, 12965523, 12997616, 13029754, 13061939, 13094170, 13126448, 13158771, 13191142, 13223558, 13256021,
  13288531, 13321087, 13353689, 13386338, 13419034, 13451776, 13484564, 13517399, 13550281, 13583209, 13616184, 13649206, 13682274, 13715389,
  13748551, 13781759, 13815014, 13848316, 13881665, 13915060, 13948502, 13981992, 14015527, 14049110, 14082740, 14116417, 14150140, 14183911,
  14217728, 14251593, 14285504, 14319463, 14353468, 14387521, 14421621, 14455768, 14489961, 14524202, 14558491, 14592826, 14627209, 14661638,
  14696115, 14730640, 14765211, 14799830, 14834496, 14869209, 14903970, 14938778, 14973634, 15008537, 15043487, 15078485, 15113530, 15148623,
  15183763, 15218950, 15254186, 15289468, 15324798, 15360176, 15395602, 15431075, 15466595, 15502164, 15537780, 15573443, 15609155, 15644914,
  15680721, 15716575, 15752478, 15788428, 15824426, 15860472, 15896565, 15932707, 15968896, 16005134, 16041419, 16077752, 16114133, 16150563,
  16187040, 16223565, 16260138, 16296759, 16333429, 16370146, 16406911, 16443725, 16480587, 16517497, 16554455, 16591461, 16628516, 16665618,
  16702769, 16739968, 16777216, 16814512, 16851856, 16889248, 16926689, 16964178, 17001716, 17039302, 17076936, 17114619, 17152351, 17190130,
  17227959, 17265836, 17303761, 17341735, 17379757, 17417828, 17455948, 17494116, 17532333, 17570599, 17608913, 17647276, 17685688, 17724148,
  17762657, 17801215, 17839822, 17878477, 17917181, 17955934, 17994736, 18033587, 18072487, 18111435, 18150433, 18189479, 18228575, 18267719,
  18306913, 18346155, 18385447, 18424787, 18464177, 18503615, 18543103, 18582640, 18622226, 18661861, 18701545, 18741278, 18781061, 18820893,
  18860774, 18900704, 18940684, 18980713, 19020791, 19060919, 19101096, 19141322, 19181597, 19221922, 19262297, 19302721, 19343194, 19383717,
  19424289, 19464910, 19505582, 19546302, 19587073, 19627893, 19668762, 19709681, 19750650, 19791668, 19832736, 19873854, 19915021, 19956238,
  19997504, 20038821, 20080187, 20121603, 20163069, 20204584, 20246150, 20287765, 20329430, 20371145, 20412910, 20454724, 20496589, 20538504,
  20580468, 20622483, 20664547, 20706662, 20748826, 20791041, 20833306, 20875620, 20917985, 20960400, 21002865, 21045380, 21087946, 21130561,
  21173227, 21215943, 21258709, 21301525, 21344392, 21387309, 21430276, 21473294, 21516362, 21559480, 21602648, 21645867, 21689137, 21732457,
  21775827, 21819247, 21862719, 21906240, 21949812, 21993435, 22037108, 22080832, 22124606, 22168431, 22212306, 22256232, 22300209, 22344236,
  22388314, 22432443, 22476622, 22520852, 22565133, 22609465, 22653847, 22698280, 22742764, 22787299, 22831884, 22876521, 22921208, 22965946,
  23010735, 23055575, 23100466, 23145408, 23190400, 23235444, 23280539, 23325684, 23370881, 23416129, 23461428, 23506778, 23552179, 23597631,
  23643134, 23688689, 23734294, 23779951, 23825659, 23871418, 23917229, 23963090, 24009003, 24054967, 24100983, 24147050, 24193168, 24239337,
  24285558, 24331830, 24378154, 24424529, 24470955, 24517433, 24563962, 24610543, 24657175, 24703859, 24750594, 24797381, 24844219, 24891109,
  24938050, 24985043, 25032088, 25079184, 25126332, 25173532, 25220783, 25268086, 25315441, 25362847, 25410305, 25457815, 25505377, 25552991,
  25600656, 25648373, 25696142, 25743963, 25791836, 25839760, 25887737, 25935765, 25983846, 26031978, 26080162, 26128399, 26176687, 26225027,
  26273420, 26321864, 26370360, 26418909, 26467510, 26516162, 26564867, 26613624, 26662433, 26711295, 26760208, 26809174, 26858192, 26907262,
  26956385, 27005560, 27054787, 27104066, 27153398, 27202782, 27252218, 27301707, 27351248, 27400842, 27450487, 27500186, 27549937, 27599740,
  27649596, 27699504, 27749465, 27799478, 27849544, 27899662, 27949833, 28000057, 28050333, 28100662, 28151043, 28201477, 28251964, 28302503,
  28353095, 28403740, 28454438, 28505188, 28555991, 28606847, 28657756, 28708717, 28759732, 28810799, 28861919, 28913091, 28964317, 29015596,
  29066927, 29118312, 29169749, 29221240, 29272783, 29324379, 29376029, 29427731, 29479487, 29531295, 29583157, 29635072, 29687039, 29739060,
  29791134, 29843262, 29895442, 29947675, 29999962, 30052302, 30104695, 30157142, 30209641, 30262194, 30314801, 30367460, 30420173, 30472939,
  30525759, 30578632, 30631558, 30684538, 30737571, 30790658, 30843798, 30896991, 30950238, 31003538, 31056892, 31110300, 31163761, 31217275,
  31270844, 31324465, 31378141, 31431869, 31485652, 31539488, 31593378, 31647322, 31701319, 31755370, 31809474, 31863633, 31917845, 31972111,
  32026430, 32080804, 32135231, 32189712, 32244247, 32298836, 32353479, 32408175, 32462926, 32517730, 32572588, 32627501, 32682467, 32737487,
  32792561, 32847689, 32902872, 32958108, 33013398, 33068743, 33124141, 33179594, 33235100, 33290661, 33346276, 33401945, 33457669, 33513446,
  33569278, 33625164, 33681104, 33737098, 33793147, 33849250, 33905407, 33961619, 34017885, 34074205, 34130579, 34187008, 34243492, 34300029,
  34356621, 34413268, 34469969, 34526725, 34583534, 34640399, 34697318, 34754291, 34811319, 34868402, 34925539, 34982731, 35039977, 35097278,
  35154633, 35212043, 35269508, 35327028, 35384602, 35442231, 35499914, 35557653, 35615446, 35673293, 35731196, 35789153, 35847165, 35905232,
  35963354, 36021531, 36079762, 36138049, 36196390, 36254786, 36313237, 36371743, 36430304, 36488920, 36547591, 36606317, 36665098, 36723934,
  36782825, 36841771, 36900772, 36959828, 37018940, 37078106, 37137328, 37196604, 37255936, 37315323, 37374765, 37434263, 37493815, 37553423,
  37613086, 37672804, 37732578, 37792407, 37852291, 37912230, 37972225, 38032275, 38092381, 38152542, 38212758, 38273030, 38333357, 38393739,
  38454177, 38514671, 38575220, 38635824, 38696484, 38757199, 38817970, 38878797, 38939679, 39000617, 39061610, 39122659, 39183763, 39244923,
  39306139, 39367411, 39428738, 39490121, 39551559, 39613053, 39674603, 39736209, 39797870, 39859588, 39921361, 39983190, 40045074, 40107015,
  40169011, 40231063, 40293172, 40355336, 40417556, 40479831, 40542163, 40604551, 40666995, 40729494, 40792050, 40854662, 40917329, 40980053,
  41042833, 41105669, 41168561, 41231509, 41294513, 41357573, 41420690, 41483862, 41547091, 41610376, 41673717, 41737115, 41800568, 41864078,
  41927644, 41991266, 42054945, 42118680, 42182471, 42246318, 42310222, 42374183, 42438199, 42502272, 42566401, 42630587, 42694829, 42759128,
  42823483, 42887895, 42952363, 43016887, 43081468, 43146106, 43210800, 43275550, 43340358, 43405221, 43470142, 43535119, 43600152, 43665243,
  43730389, 43795593, 43860853, 43926170, 43991544, 44056974, 44122461, 44188005, 44253606, 44319263, 44384977, 44450748, 44516576, 44582460,
  44648402, 44714400, 44780455, 44846567, 44912736, 44978962, 45045245, 45111585, 45177981, 45244435, 45310946, 45377513, 45444138, 45510820,
  45577558, 45644354, 45711207, 45778117, 45845084, 45912108, 45979189, 46046328, 46113523, 46180776, 46248086, 46315453, 46382877, 46450359,
  46517898, 46585494, 46653147, 46720858, 46788626, 46856451, 46924333, 46992273, 47060270, 47128325, 47196436, 47264606, 47332832, 47401117,
  47469458, 47537857, 47606313, 47674827, 47743399, 47812028, 47880714, 47949458, 48018259, 48087118, 48156035, 48225009, 48294041, 48363130,
  48432277, 48501482, 48570744, 48640064, 48709442, 48778877, 48848370, 48917921, 48987529, 49057195, 49126919, 49196701, 49266540, 49336438,
  49406393, 49476406, 49546476, 49616605, 49686792, 49757036, 49827338, 49897699, 49968117, 50038593, 50109127, 50179719, 50250369, 50321077,
  50391842, 50462666, 50533548, 50604488, 50675487, 50746543, 50817657, 50888829, 50960060, 51031348, 51102695, 51174100, 51245563, 51317084,
  51388664, 51460301, 51531997, 51603751, 51675564, 51747434, 51819363, 51891350, 51963396, 52035499, 52107662, 52179882, 52252161, 52324498,
  52396894, 52469347, 52541860, 52614431, 52687060, 52759748, 52832494, 52905298, 52978161, 53051083, 53124063, 53197102, 53270199, 53343355,
  53416569, 53489842, 53563173, 53636564, 53710012, 53783520, 53857086, 53930710, 54004394, 54078136, 54151937, 54225796, 54299714, 54373691,
  54447727, 54521821, 54595975, 54670187, 54744458, 54818787, 54893176, 54967623, 55042130, 55116695, 55191319, 55266002, 55340744, 55415544,
  55490404, 55565323, 55640300, 55715337, 55790433, 55865587, 55940801, 56016074, 56091406, 56166796, 56242246, 56317755, 56393323, 56468951,
  56544637, 56620382, 56696187, 56772051, 56847974, 56923956, 56999997, 57076098, 57152258, 57228477, 57304755, 57381093, 57457490, 57533946,
  57610461, 57687036, 57763671, 57840364, 57917117, 57993929, 58070801, 58147732, 58224723, 58301773, 58378882, 58456051, 58533279, 58610567,
  58687914, 58765321, 58842787, 58920313, 58997899, 59075544, 59153248, 59231012, 59308836, 59386719, 59464662, 59542665, 59620727, 59698849,
  59777031, 59855272, 59933573, 60011934, 60090354, 60168835, 60247375, 60325974, 60404634, 60483353, 60562132, 60640971, 60719870, 60798829,
  60877847, 60956926, 61036064, 61115262, 61194520, 61273838, 61353216, 61432654, 61512152, 61591710, 61671328, 61751006, 61830744, 61910541,
  61990399, 62070317, 62150295, 62230334, 62310432, 62390590, 62470809, 62551087, 62631426, 62711825, 62792284, 62872803, 62953383, 63034022,
  63114722, 63195482, 63276303, 63357183, 63438124, 63519126, 63600187, 63681309, 63762491, 63843734, 63925036, 64006400, 64087823, 64169307,
  64250851, 64332456, 64414121, 64495847, 64577633, 64659480, 64741387, 64823354, 64905382, 64987471, 65069620, 65151830, 65234100, 65316431,
  65398822, 65481274, 65563786, 65646360, 65728993, 65811688, 65894443, 65977259, 66060135, 66143072, 66226070, 66309129, 66392248, 66475428,
  66558669, 66641971, 66725333, 66808756, 66892240, 66975785, 67059390, 67143057, 67226784, 67310573, 67394422, 67478332, 67562303, 67646334,
  67730427, 67814581, 67898796, 67983071, 68067408, 68151805, 68236264, 68320784, 68405365, 68490006, 68574709, 68659473, 68744298, 68829184,
  68914131, 68999140, 69084209, 69169340, 69254531, 69339784, 69425099, 69510474, 69595910, 69681408, 69766967, 69852587, 69938269, 70024012,
  70109816, 70195681, 70281608, 70367596, 70453645, 70539756, 70625928, 70712162, 70798457, 70884813, 70971230, 71057710, 71144250, 71230852,
  71317515, 71404240, 71491027, 71577875, 71664784, 71751755, 71838787, 71925881, 72013037, 72100254, 72187533, 72274873, 72362275, 72449739,
  72537264, 72624851, 72712500, 72800210, 72887982, 72975815, 73063711, 73151668, 73239686, 73327767, 73415909, 73504113, 73592379, 73680707,
  73769096, 73857547, 73946060, 74034635, 74123272, 74211971, 74300731, 74389554, 74478438, 74567384, 74656393, 74745463, 74834595, 74923789,
  75013045, 75102363, 75191743, 75281185, 75370690, 75460256, 75549884, 75639574, 75729327, 75819141, 75909018, 75998956, 76088957, 76179020,
  76269145, 76359333, 76449582, 76539894, 76630268, 76720704, 76811202, 76901763, 76992385, 77083070, 77173818, 77264627, 77355499, 77446434,
  77537430, 77628489, 77719610, 77810794, 77902040, 77993348, 78084719, 78176152, 78267648, 78359206, 78450826, 78542509, 78634255, 78726063,
  78817933, 78909866, 79001862, 79093920, 79186040, 79278223, 79370469, 79462777, 79555148, 79647581, 79740077, 79832636, 79925257, 80017941,
  80110688, 80203497, 80296369, 80389304, 80482301, 80575362, 80668484, 80761670, 80854918, 80948230, 81041604, 81135040, 81228540, 81322102,
  81415728, 81509416, 81603167, 81696980, 81790857, 81884797, 81978799, 82072865, 82166993, 82261184, 82355438, 82449756, 82544136, 82638579,
  82733085, 82827654, 82922287, 83016982, 83111740
>>

\* linear light of colour s; |s| <= 2 (negative colours follow the linear segment)
Lin24(s) == IF s < 2651 THEN (s*6400) \div 323         \* 0.04045, slope 1/12.92
            ELSE LET k == s \div 64 f == s % 64 a == LinTable[k + 1] IN
                 IF f = 0 THEN a ELSE a + ((LinTable[k + 2] - a)*f) \div 64

ASSUME /\ Len(LinTable) = 2049 /\ LinTable[1] = 0 /\ LinTable[1025] = 16777216
       /\ \A k \in 1..2048 : LinTable[k] < LinTable[k + 1]                                    \* increasing
       /\ \A k \in 44..2047 : LinTable[k + 2] - LinTable[k + 1] >= LinTable[k + 1] - LinTable[k] - 1   \* convex

\* x*w/10000 and x*a/65536 without leaving 32 bits
TenThousandths(x, w) == (x \div 10000)*w + ((x % 10000)*w) \div 10000
Times(x, a) == (x \div 65536)*a + (((x % 65536) \div 256)*a) \div 256 + ((x % 256)*a) \div 65536
\* Rec. 709 luminance
Luma(r, g, b) == TenThousandths(r, 2126) + TenThousandths(g, 7152) + TenThousandths(b, 722)
=============================================================================
