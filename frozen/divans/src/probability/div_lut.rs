pub static RECIPROCAL8: [i32; 256] = [
    0, 16777217, 8388609, 5592406, 4194305, 3355444, 2796203, 2396746, 2097153, 1864136, 1677722, 1525202, 1398102, 1290556, 1198373, 1118482,
    1048577, 986896, 932068, 883012, 838861, 798916, 762601, 729445, 699051, 671089, 645278, 621379, 599187, 578525, 559241, 541201,
    524289, 508401, 493448, 479350, 466034, 453439, 441506, 430186, 419431, 409201, 399458, 390168, 381301, 372828, 364723, 356963,
    349526, 342393, 335545, 328966, 322639, 316552, 310690, 305041, 299594, 294338, 289263, 284360, 279621, 275037, 270601, 266306,
    262145, 258112, 254201, 250407, 246724, 243149, 239675, 236299, 233017, 229825, 226720, 223697, 220753, 217886, 215093, 212370,
    209716, 207127, 204601, 202136, 199729, 197380, 195084, 192842, 190651, 188509, 186414, 184366, 182362, 180401, 178482, 176603,
    174763, 172961, 171197, 169467, 167773, 166112, 164483, 162886, 161320, 159784, 158276, 156797, 155345, 153920, 152521, 151147,
    149797, 148471, 147169, 145889, 144632, 143396, 142180, 140986, 139811, 138655, 137519, 136401, 135301, 134218, 133153, 132105,
    131073, 130056, 129056, 128071, 127101, 126145, 125204, 124276, 123362, 122462, 121575, 120700, 119838, 118988, 118150, 117324,
    116509, 115705, 114913, 114131, 113360, 112599, 111849, 111108, 110377, 109656, 108943, 108241, 107547, 106862, 106185, 105518,
    104858, 104207, 103564, 102928, 102301, 101681, 101068, 100463, 99865, 99274, 98690, 98113, 97542, 96979, 96421, 95870,
    95326, 94787, 94255, 93728, 93207, 92692, 92183, 91679, 91181, 90688, 90201, 89718, 89241, 88769, 88302, 87839,
    87382, 86929, 86481, 86038, 85599, 85164, 84734, 84308, 83887, 83469, 83056, 82647, 82242, 81841, 81443, 81050,
    80660, 80274, 79892, 79513, 79138, 78767, 78399, 78034, 77673, 77315, 76960, 76609, 76261, 75916, 75574, 75235,
    74899, 74566, 74236, 73909, 73585, 73263, 72945, 72629, 72316, 72006, 71698, 71393, 71090, 70790, 70493, 70198,
    69906, 69616, 69328, 69043, 68760, 68479, 68201, 67924, 67651, 67379, 67109, 66842, 66577, 66314, 66053, 65794,
    ];
pub static RECIPROCAL: [(i64, u8); 65536] = [
    (0,0), (2147483649,0), (2147483649,1), (715827883,1), (2147483649,2), (1288490189,2), (715827883,2), (306783379,2), (2147483649,3), (1670265060,3), (1288490189,3), (976128931,3), (715827883,3), (495573150,3), (306783379,3), (143165577,3),
    (2147483649,4), (1894838513,4), (1670265060,4), (1469330918,4), (1288490189,4), (1124872388,4), (976128931,4), (840319689,4), (715827883,4), (601295422,4), (495573150,4), (397682158,4), (306783379,4), (222153481,4), (143165577,4), (69273667,4),
    (2147483649,5), (2017333124,5), (1894838513,5), (1779343595,5), (1670265060,5), (1567082663,5), (1469330918,5), (1376592083,5), (1288490189,5), (1204685949,5), (1124872388,5), (1048771084,5), (976128931,5), (906715319,5), (840319689,5), (776749405,5),
    (715827883,5), (657392954,5), (601295422,5), (547397793,5), (495573150,5), (445704154,5), (397682158,5), (351406416,5), (306783379,5), (263726063,5), (222153481,5), (181990140,5), (143165577,5), (105613950,5), (69273667,5), (34087043,5),
    (2147483649,6), (2081407229,6), (2017333124,6), (1955171680,6), (1894838513,6), (1836254134,6), (1779343595,6), (1724036169,6), (1670265060,6), (1617967133,6), (1567082663,6), (1517555112,6), (1469330918,6), (1422359300,6), (1376592083,6), (1331983529,6),
    (1288490189,6), (1246070759,6), (1204685949,6), (1164298364,6), (1124872388,6), (1086374081,6), (1048771084,6), (1012032524,6), (976128931,6), (941032161,6), (906715319,6), (873152693,6), (840319689,6), (808192771,6), (776749405,6), (745968005,6),
    (715827883,6), (686309208,6), (657392954,6), (629060867,6), (601295422,6), (574079788,6), (547397793,6), (521233896,6), (495573150,6), (470401181,6), (445704154,6), (421468754,6), (397682158,6), (374332013,6), (351406416,6), (328893893,6),
    (306783379,6), (285064202,6), (263726063,6), (242759022,6), (222153481,6), (201900173,6), (181990140,6), (162414730,6), (143165577,6), (124234592,6), (105613950,6), (87296084,6), (69273667,6), (51539608,6), (34087043,6), (16909321,6),
    (2147483649,7), (2114189328,7), (2081407229,7), (2049125619,7), (2017333124,7), (1986018713,7), (1955171680,7), (1924781641,7), (1894838513,7), (1865332512,7), (1836254134,7), (1807594150,7), (1779343595,7), (1751493756,7), (1724036169,7), (1696962603,7),
    (1670265060,7), (1643935759,7), (1617967133,7), (1592351821,7), (1567082663,7), (1542152687,7), (1517555112,7), (1493283332,7), (1469330918,7), (1445691607,7), (1422359300,7), (1399328055,7), (1376592083,7), (1354145740,7), (1331983529,7), (1310100088,7),
    (1288490189,7), (1267148737,7), (1246070759,7), (1225251407,7), (1204685949,7), (1184369770,7), (1164298364,7), (1144467334,7), (1124872388,7), (1105509334,7), (1086374081,7), (1067462633,7), (1048771084,7), (1030295624,7), (1012032524,7), (993978146,7),
    (976128931,7), (958481403,7), (941032161,7), (923777883,7), (906715319,7), (889841291,7), (873152693,7), (856646483,7), (840319689,7), (824169401,7), (808192771,7), (792387015,7), (776749405,7), (761277273,7), (745968005,7), (730819043,7),
    (715827883,7), (700992072,7), (686309208,7), (671776937,7), (657392954,7), (643155002,7), (629060867,7), (615108382,7), (601295422,7), (587619904,7), (574079788,7), (560673071,7), (547397793,7), (534252030,7), (521233896,7), (508341540,7),
    (495573150,7), (482926945,7), (470401181,7), (457994143,7), (445704154,7), (433529563,7), (421468754,7), (409520138,7), (397682158,7), (385953283,7), (374332013,7), (362816873,7), (351406416,7), (340099221,7), (328893893,7), (317789061,7),
    (306783379,7), (295875525,7), (285064202,7), (274348132,7), (263726063,7), (253196762,7), (242759022,7), (232411651,7), (222153481,7), (211983365,7), (201900173,7), (191902795,7), (181990140,7), (172161137,7), (162414730,7), (152749883,7),
    (143165577,7), (133660808,7), (124234592,7), (114885957,7), (105613950,7), (96417634,7), (87296084,7), (78248393,7), (69273667,7), (60371027,7), (51539608,7), (42778559,7), (34087043,7), (25464233,7), (16909321,7), (8421505,7),
    (2147483649,8), (2130771713,8), (2114189328,8), (2097734993,8), (2081407229,8), (2065204582,8), (2049125619,8), (2033168930,8), (2017333124,8), (2001616835,8), (1986018713,8), (1970537430,8), (1955171680,8), (1939920173,8), (1924781641,8), (1909754831,8),
    (1894838513,8), (1880031473,8), (1865332512,8), (1850740454,8), (1836254134,8), (1821872409,8), (1807594150,8), (1793418244,8), (1779343595,8), (1765369120,8), (1751493756,8), (1737716451,8), (1724036169,8), (1710451889,8), (1696962603,8), (1683567320,8),
    (1670265060,8), (1657054857,8), (1643935759,8), (1630906826,8), (1617967133,8), (1605115765,8), (1592351821,8), (1579674413,8), (1567082663,8), (1554575705,8), (1542152687,8), (1529812766,8), (1517555112,8), (1505378903,8), (1493283332,8), (1481267599,8),
    (1469330918,8), (1457472509,8), (1445691607,8), (1433987453,8), (1422359300,8), (1410806410,8), (1399328055,8), (1387923516,8), (1376592083,8), (1365333055,8), (1354145740,8), (1343029457,8), (1331983529,8), (1321007292,8), (1310100088,8), (1299261267,8),
    (1288490189,8), (1277786221,8), (1267148737,8), (1256577120,8), (1246070759,8), (1235629053,8), (1225251407,8), (1214937233,8), (1204685949,8), (1194496984,8), (1184369770,8), (1174303748,8), (1164298364,8), (1154353073,8), (1144467334,8), (1134640615,8),
    (1124872388,8), (1115162132,8), (1105509334,8), (1095913485,8), (1086374081,8), (1076890628,8), (1067462633,8), (1058089611,8), (1048771084,8), (1039506578,8), (1030295624,8), (1021137758,8), (1012032524,8), (1002979469,8), (993978146,8), (985028113,8),
    (976128931,8), (967280171,8), (958481403,8), (949732205,8), (941032161,8), (932380856,8), (923777883,8), (915222837,8), (906715319,8), (898254934,8), (889841291,8), (881474005,8), (873152693,8), (864876977,8), (856646483,8), (848460842,8),
    (840319689,8), (832222661,8), (824169401,8), (816159554,8), (808192771,8), (800268706,8), (792387015,8), (784547360,8), (776749405,8), (768992819,8), (761277273,8), (753602442,8), (745968005,8), (738373643,8), (730819043,8), (723303892,8),
    (715827883,8), (708390710,8), (700992072,8), (693631670,8), (686309208,8), (679024393,8), (671776937,8), (664566551,8), (657392954,8), (650255863,8), (643155002,8), (636090094,8), (629060867,8), (622067052,8), (615108382,8), (608184593,8),
    (601295422,8), (594440611,8), (587619904,8), (580833047,8), (574079788,8), (567359878,8), (560673071,8), (554019123,8), (547397793,8), (540808841,8), (534252030,8), (527727126,8), (521233896,8), (514772110,8), (508341540,8), (501941962,8),
    (495573150,8), (489234884,8), (482926945,8), (476649116,8), (470401181,8), (464182927,8), (457994143,8), (451834621,8), (445704154,8), (439602536,8), (433529563,8), (427485036,8), (421468754,8), (415480520,8), (409520138,8), (403587415,8),
    (397682158,8), (391804176,8), (385953283,8), (380129290,8), (374332013,8), (368561267,8), (362816873,8), (357098648,8), (351406416,8), (345739998,8), (340099221,8), (334483910,8), (328893893,8), (323328999,8), (317789061,8), (312273909,8),
    (306783379,8), (301317305,8), (295875525,8), (290457878,8), (285064202,8), (279694339,8), (274348132,8), (269025425,8), (263726063,8), (258449892,8), (253196762,8), (247966522,8), (242759022,8), (237574113,8), (232411651,8), (227271488,8),
    (222153481,8), (217057488,8), (211983365,8), (206930973,8), (201900173,8), (196890825,8), (191902795,8), (186935944,8), (181990140,8), (177065248,8), (172161137,8), (167277674,8), (162414730,8), (157572176,8), (152749883,8), (147947726,8),
    (143165577,8), (138403313,8), (133660808,8), (128937942,8), (124234592,8), (119550637,8), (114885957,8), (110240434,8), (105613950,8), (101006389,8), (96417634,8), (91847570,8), (87296084,8), (82763062,8), (78248393,8), (73751964,8),
    (69273667,8), (64813390,8), (60371027,8), (55946468,8), (51539608,8), (47150340,8), (42778559,8), (38424161,8), (34087043,8), (29767101,8), (25464233,8), (21178340,8), (16909321,8), (12657075,8), (8421505,8), (4202513,8),
    (2147483649,9), (2139111393,9), (2130771713,9), (2122464422,9), (2114189328,9), (2105946247,9), (2097734993,9), (2089555381,9), (2081407229,9), (2073290355,9), (2065204582,9), (2057149728,9), (2049125619,9), (2041132077,9), (2033168930,9), (2025236003,9),
    (2017333124,9), (2009460125,9), (2001616835,9), (1993803086,9), (1986018713,9), (1978263549,9), (1970537430,9), (1962840195,9), (1955171680,9), (1947531726,9), (1939920173,9), (1932336864,9), (1924781641,9), (1917254348,9), (1909754831,9), (1902282937,9),
    (1894838513,9), (1887421409,9), (1880031473,9), (1872668556,9), (1865332512,9), (1858023193,9), (1850740454,9), (1843484148,9), (1836254134,9), (1829050269,9), (1821872409,9), (1814720417,9), (1807594150,9), (1800493472,9), (1793418244,9), (1786368330,9),
    (1779343595,9), (1772343903,9), (1765369120,9), (1758419115,9), (1751493756,9), (1744592911,9), (1737716451,9), (1730864246,9), (1724036169,9), (1717232092,9), (1710451889,9), (1703695434,9), (1696962603,9), (1690253273,9), (1683567320,9), (1676904623,9),
    (1670265060,9), (1663648511,9), (1657054857,9), (1650483979,9), (1643935759,9), (1637410080,9), (1630906826,9), (1624425882,9), (1617967133,9), (1611530465,9), (1605115765,9), (1598722921,9), (1592351821,9), (1586002355,9), (1579674413,9), (1573367885,9),
    (1567082663,9), (1560818638,9), (1554575705,9), (1548353757,9), (1542152687,9), (1535972392,9), (1529812766,9), (1523673707,9), (1517555112,9), (1511456878,9), (1505378903,9), (1499321088,9), (1493283332,9), (1487265535,9), (1481267599,9), (1475289426,9),
    (1469330918,9), (1463391977,9), (1457472509,9), (1451572417,9), (1445691607,9), (1439829983,9), (1433987453,9), (1428163923,9), (1422359300,9), (1416573493,9), (1410806410,9), (1405057961,9), (1399328055,9), (1393616603,9), (1387923516,9), (1382248705,9),
    (1376592083,9), (1370953561,9), (1365333055,9), (1359730476,9), (1354145740,9), (1348578762,9), (1343029457,9), (1337497740,9), (1331983529,9), (1326486740,9), (1321007292,9), (1315545101,9), (1310100088,9), (1304672170,9), (1299261267,9), (1293867300,9),
    (1288490189,9), (1283129856,9), (1277786221,9), (1272459207,9), (1267148737,9), (1261854733,9), (1256577120,9), (1251315820,9), (1246070759,9), (1240841862,9), (1235629053,9), (1230432260,9), (1225251407,9), (1220086422,9), (1214937233,9), (1209803766,9),
    (1204685949,9), (1199583713,9), (1194496984,9), (1189425693,9), (1184369770,9), (1179329145,9), (1174303748,9), (1169293510,9), (1164298364,9), (1159318241,9), (1154353073,9), (1149402793,9), (1144467334,9), (1139546630,9), (1134640615,9), (1129749222,9),
    (1124872388,9), (1120010046,9), (1115162132,9), (1110328583,9), (1105509334,9), (1100704322,9), (1095913485,9), (1091136758,9), (1086374081,9), (1081625391,9), (1076890628,9), (1072169728,9), (1067462633,9), (1062769280,9), (1058089611,9), (1053423566,9),
    (1048771084,9), (1044132108,9), (1039506578,9), (1034894436,9), (1030295624,9), (1025710083,9), (1021137758,9), (1016578591,9), (1012032524,9), (1007499503,9), (1002979469,9), (998472369,9), (993978146,9), (989496746,9), (985028113,9), (980572193,9),
    (976128931,9), (971698275,9), (967280171,9), (962874564,9), (958481403,9), (954100634,9), (949732205,9), (945376065,9), (941032161,9), (936700442,9), (932380856,9), (928073353,9), (923777883,9), (919494394,9), (915222837,9), (910963161,9),
    (906715319,9), (902479259,9), (898254934,9), (894042294,9), (889841291,9), (885651877,9), (881474005,9), (877307626,9), (873152693,9), (869009158,9), (864876977,9), (860756100,9), (856646483,9), (852548079,9), (848460842,9), (844384727,9),
    (840319689,9), (836265682,9), (832222661,9), (828190582,9), (824169401,9), (820159073,9), (816159554,9), (812170801,9), (808192771,9), (804225420,9), (800268706,9), (796322585,9), (792387015,9), (788461954,9), (784547360,9), (780643191,9),
    (776749405,9), (772865961,9), (768992819,9), (765129936,9), (761277273,9), (757434788,9), (753602442,9), (749780194,9), (745968005,9), (742165834,9), (738373643,9), (734591393,9), (730819043,9), (727056556,9), (723303892,9), (719561014,9),
    (715827883,9), (712104461,9), (708390710,9), (704686593,9), (700992072,9), (697307110,9), (693631670,9), (689965715,9), (686309208,9), (682662113,9), (679024393,9), (675396013,9), (671776937,9), (668167128,9), (664566551,9), (660975172,9),
    (657392954,9), (653819863,9), (650255863,9), (646700921,9), (643155002,9), (639618071,9), (636090094,9), (632571037,9), (629060867,9), (625559550,9), (622067052,9), (618583341,9), (615108382,9), (611642144,9), (608184593,9), (604735696,9),
    (601295422,9), (597863738,9), (594440611,9), (591026011,9), (587619904,9), (584222260,9), (580833047,9), (577452233,9), (574079788,9), (570715680,9), (567359878,9), (564012352,9), (560673071,9), (557342005,9), (554019123,9), (550704396,9),
    (547397793,9), (544099285,9), (540808841,9), (537526433,9), (534252030,9), (530985604,9), (527727126,9), (524476566,9), (521233896,9), (517999087,9), (514772110,9), (511552937,9), (508341540,9), (505137891,9), (501941962,9), (498753724,9),
    (495573150,9), (492400213,9), (489234884,9), (486077138,9), (482926945,9), (479784280,9), (476649116,9), (473521425,9), (470401181,9), (467288357,9), (464182927,9), (461084864,9), (457994143,9), (454910738,9), (451834621,9), (448765769,9),
    (445704154,9), (442649751,9), (439602536,9), (436562481,9), (433529563,9), (430503756,9), (427485036,9), (424473377,9), (421468754,9), (418471143,9), (415480520,9), (412496860,9), (409520138,9), (406550331,9), (403587415,9), (400631365,9),
    (397682158,9), (394739769,9), (391804176,9), (388875355,9), (385953283,9), (383037935,9), (380129290,9), (377227323,9), (374332013,9), (371443335,9), (368561267,9), (365685787,9), (362816873,9), (359954500,9), (357098648,9), (354249294,9),
    (351406416,9), (348569991,9), (345739998,9), (342916415,9), (340099221,9), (337288393,9), (334483910,9), (331685750,9), (328893893,9), (326108316,9), (323328999,9), (320555921,9), (317789061,9), (315028397,9), (312273909,9), (309525577,9),
    (306783379,9), (304047295,9), (301317305,9), (298593389,9), (295875525,9), (293163695,9), (290457878,9), (287758053,9), (285064202,9), (282376303,9), (279694339,9), (277018288,9), (274348132,9), (271683850,9), (269025425,9), (266372835,9),
    (263726063,9), (261085088,9), (258449892,9), (255820457,9), (253196762,9), (250578790,9), (247966522,9), (245359939,9), (242759022,9), (240163753,9), (237574113,9), (234990085,9), (232411651,9), (229838791,9), (227271488,9), (224709724,9),
    (222153481,9), (219602742,9), (217057488,9), (214517701,9), (211983365,9), (209454461,9), (206930973,9), (204412883,9), (201900173,9), (199392826,9), (196890825,9), (194394154,9), (191902795,9), (189416730,9), (186935944,9), (184460420,9),
    (181990140,9), (179525089,9), (177065248,9), (174610603,9), (172161137,9), (169716833,9), (167277674,9), (164843645,9), (162414730,9), (159990912,9), (157572176,9), (155158505,9), (152749883,9), (150346296,9), (147947726,9), (145554158,9),
    (143165577,9), (140781967,9), (138403313,9), (136029598,9), (133660808,9), (131296928,9), (128937942,9), (126583835,9), (124234592,9), (121890197,9), (119550637,9), (117215895,9), (114885957,9), (112560808,9), (110240434,9), (107924820,9),
    (105613950,9), (103307812,9), (101006389,9), (98709668,9), (96417634,9), (94130273,9), (91847570,9), (89569512,9), (87296084,9), (85027272,9), (82763062,9), (80503440,9), (78248393,9), (75997905,9), (73751964,9), (71510556,9),
    (69273667,9), (67041283,9), (64813390,9), (62589976,9), (60371027,9), (58156529,9), (55946468,9), (53740833,9), (51539608,9), (49342782,9), (47150340,9), (44962270,9), (42778559,9), (40599194,9), (38424161,9), (36253448,9),
    (34087043,9), (31924931,9), (29767101,9), (27613539,9), (25464233,9), (23319171,9), (21178340,9), (19041727,9), (16909321,9), (14781107,9), (12657075,9), (10537212,9), (8421505,9), (6309943,9), (4202513,9), (2099203,9),
    (2147483649,10), (2143293437,10), (2139111393,10), (2134937493,10), (2130771713,10), (2126614031,10), (2122464422,10), (2118322862,10), (2114189328,10), (2110063798,10), (2105946247,10), (2101836653,10), (2097734993,10), (2093641243,10), (2089555381,10), (2085477383,10),
    (2081407229,10), (2077344893,10), (2073290355,10), (2069243592,10), (2065204582,10), (2061173301,10), (2057149728,10), (2053133842,10), (2049125619,10), (2045125038,10), (2041132077,10), (2037146715,10), (2033168930,10), (2029198699,10), (2025236003,10), (2021280818,10),
    (2017333124,10), (2013392900,10), (2009460125,10), (2005534777,10), (2001616835,10), (1997706278,10), (1993803086,10), (1989907238,10), (1986018713,10), (1982137490,10), (1978263549,10), (1974396869,10), (1970537430,10), (1966685212,10), (1962840195,10), (1959002357,10),
    (1955171680,10), (1951348143,10), (1947531726,10), (1943722409,10), (1939920173,10), (1936124998,10), (1932336864,10), (1928555751,10), (1924781641,10), (1921014513,10), (1917254348,10), (1913501127,10), (1909754831,10), (1906015441,10), (1902282937,10), (1898557301,10),
    (1894838513,10), (1891126556,10), (1887421409,10), (1883723054,10), (1880031473,10), (1876346646,10), (1872668556,10), (1868997185,10), (1865332512,10), (1861674521,10), (1858023193,10), (1854378510,10), (1850740454,10), (1847109006,10), (1843484148,10), (1839865864,10),
    (1836254134,10), (1832648942,10), (1829050269,10), (1825458097,10), (1821872409,10), (1818293188,10), (1814720417,10), (1811154076,10), (1807594150,10), (1804040621,10), (1800493472,10), (1796952685,10), (1793418244,10), (1789890131,10), (1786368330,10), (1782852824,10),
    (1779343595,10), (1775840626,10), (1772343903,10), (1768853406,10), (1765369120,10), (1761891029,10), (1758419115,10), (1754953363,10), (1751493756,10), (1748040277,10), (1744592911,10), (1741151641,10), (1737716451,10), (1734287324,10), (1730864246,10), (1727447199,10),
    (1724036169,10), (1720631138,10), (1717232092,10), (1713839014,10), (1710451889,10), (1707070701,10), (1703695434,10), (1700326074,10), (1696962603,10), (1693605008,10), (1690253273,10), (1686907382,10), (1683567320,10), (1680233072,10), (1676904623,10), (1673581957,10),
    (1670265060,10), (1666953916,10), (1663648511,10), (1660348830,10), (1657054857,10), (1653766578,10), (1650483979,10), (1647207044,10), (1643935759,10), (1640670109,10), (1637410080,10), (1634155657,10), (1630906826,10), (1627663572,10), (1624425882,10), (1621193740,10),
    (1617967133,10), (1614746045,10), (1611530465,10), (1608320376,10), (1605115765,10), (1601916618,10), (1598722921,10), (1595534660,10), (1592351821,10), (1589174391,10), (1586002355,10), (1582835700,10), (1579674413,10), (1576518479,10), (1573367885,10), (1570222617,10),
    (1567082663,10), (1563948007,10), (1560818638,10), (1557694542,10), (1554575705,10), (1551462115,10), (1548353757,10), (1545250619,10), (1542152687,10), (1539059949,10), (1535972392,10), (1532890002,10), (1529812766,10), (1526740673,10), (1523673707,10), (1520611858,10),
    (1517555112,10), (1514503456,10), (1511456878,10), (1508415364,10), (1505378903,10), (1502347482,10), (1499321088,10), (1496299709,10), (1493283332,10), (1490271945,10), (1487265535,10), (1484264091,10), (1481267599,10), (1478276048,10), (1475289426,10), (1472307720,10),
    (1469330918,10), (1466359007,10), (1463391977,10), (1460429815,10), (1457472509,10), (1454520047,10), (1451572417,10), (1448629608,10), (1445691607,10), (1442758402,10), (1439829983,10), (1436906337,10), (1433987453,10), (1431073318,10), (1428163923,10), (1425259253,10),
    (1422359300,10), (1419464050,10), (1416573493,10), (1413687617,10), (1410806410,10), (1407929862,10), (1405057961,10), (1402190696,10), (1399328055,10), (1396470028,10), (1393616603,10), (1390767769,10), (1387923516,10), (1385083831,10), (1382248705,10), (1379418126,10),
    (1376592083,10), (1373770565,10), (1370953561,10), (1368141062,10), (1365333055,10), (1362529530,10), (1359730476,10), (1356935883,10), (1354145740,10), (1351360037,10), (1348578762,10), (1345801905,10), (1343029457,10), (1340261405,10), (1337497740,10), (1334738452,10),
    (1331983529,10), (1329232962,10), (1326486740,10), (1323744854,10), (1321007292,10), (1318274044,10), (1315545101,10), (1312820453,10), (1310100088,10), (1307383997,10), (1304672170,10), (1301964597,10), (1299261267,10), (1296562172,10), (1293867300,10), (1291176643,10),
    (1288490189,10), (1285807930,10), (1283129856,10), (1280455956,10), (1277786221,10), (1275120641,10), (1272459207,10), (1269801909,10), (1267148737,10), (1264499682,10), (1261854733,10), (1259213882,10), (1256577120,10), (1253944435,10), (1251315820,10), (1248691265,10),
    (1246070759,10), (1243454295,10), (1240841862,10), (1238233451,10), (1235629053,10), (1233028659,10), (1230432260,10), (1227839845,10), (1225251407,10), (1222666936,10), (1220086422,10), (1217509858,10), (1214937233,10), (1212368538,10), (1209803766,10), (1207242906,10),
    (1204685949,10), (1202132888,10), (1199583713,10), (1197038414,10), (1194496984,10), (1191959413,10), (1189425693,10), (1186895815,10), (1184369770,10), (1181847549,10), (1179329145,10), (1176814547,10), (1174303748,10), (1171796738,10), (1169293510,10), (1166794055,10),
    (1164298364,10), (1161806429,10), (1159318241,10), (1156833791,10), (1154353073,10), (1151876076,10), (1149402793,10), (1146933215,10), (1144467334,10), (1142005142,10), (1139546630,10), (1137091790,10), (1134640615,10), (1132193095,10), (1129749222,10), (1127308989,10),
    (1124872388,10), (1122439409,10), (1120010046,10), (1117584289,10), (1115162132,10), (1112743566,10), (1110328583,10), (1107917175,10), (1105509334,10), (1103105053,10), (1100704322,10), (1098307136,10), (1095913485,10), (1093523361,10), (1091136758,10), (1088753668,10),
    (1086374081,10), (1083997992,10), (1081625391,10), (1079256273,10), (1076890628,10), (1074528449,10), (1072169728,10), (1069814459,10), (1067462633,10), (1065114242,10), (1062769280,10), (1060427739,10), (1058089611,10), (1055754889,10), (1053423566,10), (1051095633,10),
    (1048771084,10), (1046449912,10), (1044132108,10), (1041817666,10), (1039506578,10), (1037198837,10), (1034894436,10), (1032593367,10), (1030295624,10), (1028001198,10), (1025710083,10), (1023422273,10), (1021137758,10), (1018856533,10), (1016578591,10), (1014303923,10),
    (1012032524,10), (1009764386,10), (1007499503,10), (1005237866,10), (1002979469,10), (1000724306,10), (998472369,10), (996223651,10), (993978146,10), (991735847,10), (989496746,10), (987260837,10), (985028113,10), (982798567,10), (980572193,10), (978348983,10),
    (976128931,10), (973912031,10), (971698275,10), (969487657,10), (967280171,10), (965075808,10), (962874564,10), (960676431,10), (958481403,10), (956289473,10), (954100634,10), (951914880,10), (949732205,10), (947552602,10), (945376065,10), (943202587,10),
    (941032161,10), (938864781,10), (936700442,10), (934539135,10), (932380856,10), (930225597,10), (928073353,10), (925924117,10), (923777883,10), (921634644,10), (919494394,10), (917357127,10), (915222837,10), (913091517,10), (910963161,10), (908837764,10),
    (906715319,10), (904595819,10), (902479259,10), (900365633,10), (898254934,10), (896147156,10), (894042294,10), (891940341,10), (889841291,10), (887745139,10), (885651877,10), (883561501,10), (881474005,10), (879389381,10), (877307626,10), (875228731,10),
    (873152693,10), (871079504,10), (869009158,10), (866941651,10), (864876977,10), (862815128,10), (860756100,10), (858699887,10), (856646483,10), (854595882,10), (852548079,10), (850503068,10), (848460842,10), (846421397,10), (844384727,10), (842350826,10),
    (840319689,10), (838291309,10), (836265682,10), (834242801,10), (832222661,10), (830205256,10), (828190582,10), (826178632,10), (824169401,10), (822162883,10), (820159073,10), (818157965,10), (816159554,10), (814163835,10), (812170801,10), (810180449,10),
    (808192771,10), (806207764,10), (804225420,10), (802245736,10), (800268706,10), (798294324,10), (796322585,10), (794353484,10), (792387015,10), (790423174,10), (788461954,10), (786503351,10), (784547360,10), (782593975,10), (780643191,10), (778695003,10),
    (776749405,10), (774806393,10), (772865961,10), (770928105,10), (768992819,10), (767060097,10), (765129936,10), (763202329,10), (761277273,10), (759354760,10), (757434788,10), (755517350,10), (753602442,10), (751690058,10), (749780194,10), (747872844,10),
    (745968005,10), (744065669,10), (742165834,10), (740268494,10), (738373643,10), (736481278,10), (734591393,10), (732703983,10), (730819043,10), (728936569,10), (727056556,10), (725178999,10), (723303892,10), (721431233,10), (719561014,10), (717693233,10),
    (715827883,10), (713964961,10), (712104461,10), (710246379,10), (708390710,10), (706537450,10), (704686593,10), (702838135,10), (700992072,10), (699148399,10), (697307110,10), (695468202,10), (693631670,10), (691797509,10), (689965715,10), (688136282,10),
    (686309208,10), (684484486,10), (682662113,10), (680842083,10), (679024393,10), (677209038,10), (675396013,10), (673585314,10), (671776937,10), (669970876,10), (668167128,10), (666365688,10), (664566551,10), (662769714,10), (660975172,10), (659182920,10),
    (657392954,10), (655605270,10), (653819863,10), (652036729,10), (650255863,10), (648477262,10), (646700921,10), (644926836,10), (643155002,10), (641385415,10), (639618071,10), (637852965,10), (636090094,10), (634329453,10), (632571037,10), (630814843,10),
    (629060867,10), (627309104,10), (625559550,10), (623812201,10), (622067052,10), (620324100,10), (618583341,10), (616844769,10), (615108382,10), (613374175,10), (611642144,10), (609912284,10), (608184593,10), (606459065,10), (604735696,10), (603014483,10),
    (601295422,10), (599578508,10), (597863738,10), (596151107,10), (594440611,10), (592732247,10), (591026011,10), (589321898,10), (587619904,10), (585920026,10), (584222260,10), (582526601,10), (580833047,10), (579141592,10), (577452233,10), (575764966,10),
    (574079788,10), (572396693,10), (570715680,10), (569036742,10), (567359878,10), (565685082,10), (564012352,10), (562341683,10), (560673071,10), (559006513,10), (557342005,10), (555679543,10), (554019123,10), (552360742,10), (550704396,10), (549050081,10),
    (547397793,10), (545747529,10), (544099285,10), (542453057,10), (540808841,10), (539166634,10), (537526433,10), (535888232,10), (534252030,10), (532617822,10), (530985604,10), (529355373,10), (527727126,10), (526100858,10), (524476566,10), (522854246,10),
    (521233896,10), (519615510,10), (517999087,10), (516384621,10), (514772110,10), (513161550,10), (511552937,10), (509946269,10), (508341540,10), (506738749,10), (505137891,10), (503538963,10), (501941962,10), (500346883,10), (498753724,10), (497162481,10),
    (495573150,10), (493985729,10), (492400213,10), (490816599,10), (489234884,10), (487655065,10), (486077138,10), (484501099,10), (482926945,10), (481354674,10), (479784280,10), (478215762,10), (476649116,10), (475084338,10), (473521425,10), (471960373,10),
    (470401181,10), (468843843,10), (467288357,10), (465734719,10), (464182927,10), (462632976,10), (461084864,10), (459538588,10), (457994143,10), (456451528,10), (454910738,10), (453371770,10), (451834621,10), (450299289,10), (448765769,10), (447234058,10),
    (445704154,10), (444176053,10), (442649751,10), (441125247,10), (439602536,10), (438081615,10), (436562481,10), (435045132,10), (433529563,10), (432015773,10), (430503756,10), (428993512,10), (427485036,10), (425978325,10), (424473377,10), (422970187,10),
    (421468754,10), (419969074,10), (418471143,10), (416974960,10), (415480520,10), (413987821,10), (412496860,10), (411007633,10), (409520138,10), (408034372,10), (406550331,10), (405068013,10), (403587415,10), (402108533,10), (400631365,10), (399155907,10),
    (397682158,10), (396210113,10), (394739769,10), (393271125,10), (391804176,10), (390338921,10), (388875355,10), (387413477,10), (385953283,10), (384494770,10), (383037935,10), (381582776,10), (380129290,10), (378677473,10), (377227323,10), (375778837,10),
    (374332013,10), (372886846,10), (371443335,10), (370001476,10), (368561267,10), (367122705,10), (365685787,10), (364250511,10), (362816873,10), (361384870,10), (359954500,10), (358525761,10), (357098648,10), (355673160,10), (354249294,10), (352827047,10),
    (351406416,10), (349987398,10), (348569991,10), (347154192,10), (345739998,10), (344327407,10), (342916415,10), (341507021,10), (340099221,10), (338693012,10), (337288393,10), (335885359,10), (334483910,10), (333084041,10), (331685750,10), (330289035,10),
    (328893893,10), (327500320,10), (326108316,10), (324717876,10), (323328999,10), (321941682,10), (320555921,10), (319171715,10), (317789061,10), (316407955,10), (315028397,10), (313650382,10), (312273909,10), (310898975,10), (309525577,10), (308153712,10),
    (306783379,10), (305414574,10), (304047295,10), (302681540,10), (301317305,10), (299954589,10), (298593389,10), (297233702,10), (295875525,10), (294518857,10), (293163695,10), (291810036,10), (290457878,10), (289107217,10), (287758053,10), (286410382,10),
    (285064202,10), (283719510,10), (282376303,10), (281034581,10), (279694339,10), (278355575,10), (277018288,10), (275682474,10), (274348132,10), (273015258,10), (271683850,10), (270353907,10), (269025425,10), (267698401,10), (266372835,10), (265048723,10),
    (263726063,10), (262404852,10), (261085088,10), (259766769,10), (258449892,10), (257134456,10), (255820457,10), (254507893,10), (253196762,10), (251887062,10), (250578790,10), (249271944,10), (247966522,10), (246662521,10), (245359939,10), (244058773,10),
    (242759022,10), (241460682,10), (240163753,10), (238868230,10), (237574113,10), (236281399,10), (234990085,10), (233700170,10), (232411651,10), (231124525,10), (229838791,10), (228554446,10), (227271488,10), (225989915,10), (224709724,10), (223430914,10),
    (222153481,10), (220877425,10), (219602742,10), (218329430,10), (217057488,10), (215786912,10), (214517701,10), (213249853,10), (211983365,10), (210718235,10), (209454461,10), (208192041,10), (206930973,10), (205671254,10), (204412883,10), (203155856,10),
    (201900173,10), (200645830,10), (199392826,10), (198141158,10), (196890825,10), (195641825,10), (194394154,10), (193147811,10), (191902795,10), (190659102,10), (189416730,10), (188175679,10), (186935944,10), (185697525,10), (184460420,10), (183224625,10),
    (181990140,10), (180756962,10), (179525089,10), (178294518,10), (177065248,10), (175837278,10), (174610603,10), (173385224,10), (172161137,10), (170938340,10), (169716833,10), (168496611,10), (167277674,10), (166060020,10), (164843645,10), (163628550,10),
    (162414730,10), (161202185,10), (159990912,10), (158780910,10), (157572176,10), (156364708,10), (155158505,10), (153953564,10), (152749883,10), (151547461,10), (150346296,10), (149146384,10), (147947726,10), (146750318,10), (145554158,10), (144359245,10),
    (143165577,10), (141973152,10), (140781967,10), (139592021,10), (138403313,10), (137215839,10), (136029598,10), (134844589,10), (133660808,10), (132478256,10), (131296928,10), (130116824,10), (128937942,10), (127760280,10), (126583835,10), (125408606,10),
    (124234592,10), (123061789,10), (121890197,10), (120719814,10), (119550637,10), (118382664,10), (117215895,10), (116050326,10), (114885957,10), (113722785,10), (112560808,10), (111400025,10), (110240434,10), (109082033,10), (107924820,10), (106768793,10),
    (105613950,10), (104460291,10), (103307812,10), (102156512,10), (101006389,10), (99857441,10), (98709668,10), (97563066,10), (96417634,10), (95273370,10), (94130273,10), (92988340,10), (91847570,10), (90707961,10), (89569512,10), (88432220,10),
    (87296084,10), (86161102,10), (85027272,10), (83894593,10), (82763062,10), (81632678,10), (80503440,10), (79375345,10), (78248393,10), (77122580,10), (75997905,10), (74874367,10), (73751964,10), (72630694,10), (71510556,10), (70391547,10),
    (69273667,10), (68156912,10), (67041283,10), (65926776,10), (64813390,10), (63701124,10), (62589976,10), (61479944,10), (60371027,10), (59263222,10), (58156529,10), (57050945,10), (55946468,10), (54843098,10), (53740833,10), (52639670,10),
    (51539608,10), (50440646,10), (49342782,10), (48246014,10), (47150340,10), (46055760,10), (44962270,10), (43869871,10), (42778559,10), (41688334,10), (40599194,10), (39511137,10), (38424161,10), (37338266,10), (36253448,10), (35169708,10),
    (34087043,10), (33005451,10), (31924931,10), (30845481,10), (29767101,10), (28689787,10), (27613539,10), (26538355,10), (25464233,10), (24391173,10), (23319171,10), (22248228,10), (21178340,10), (20109507,10), (19041727,10), (17974999,10),
    (16909321,10), (15844690,10), (14781107,10), (13718569,10), (12657075,10), (11596623,10), (10537212,10), (9478840,10), (8421505,10), (7365207,10), (6309943,10), (5255712,10), (4202513,10), (3150343,10), (2099203,10), (1049089,10),
    (2147483649,11), (2145387520,11), (2143293437,11), (2141201395,11), (2139111393,11), (2137023426,11), (2134937493,11), (2132853590,11), (2130771713,11), (2128691862,11), (2126614031,11), (2124538219,11), (2122464422,11), (2120392637,11), (2118322862,11), (2116255093,11),
    (2114189328,11), (2112125564,11), (2110063798,11), (2108004027,11), (2105946247,11), (2103890457,11), (2101836653,11), (2099784833,11), (2097734993,11), (2095687130,11), (2093641243,11), (2091597327,11), (2089555381,11), (2087515400,11), (2085477383,11), (2083441327,11),
    (2081407229,11), (2079375085,11), (2077344893,11), (2075316651,11), (2073290355,11), (2071266003,11), (2069243592,11), (2067223119,11), (2065204582,11), (2063187976,11), (2061173301,11), (2059160553,11), (2057149728,11), (2055140826,11), (2053133842,11), (2051128774,11),
    (2049125619,11), (2047124375,11), (2045125038,11), (2043127607,11), (2041132077,11), (2039138448,11), (2037146715,11), (2035156877,11), (2033168930,11), (2031182871,11), (2029198699,11), (2027216411,11), (2025236003,11), (2023257473,11), (2021280818,11), (2019306036,11),
    (2017333124,11), (2015362080,11), (2013392900,11), (2011425583,11), (2009460125,11), (2007496524,11), (2005534777,11), (2003574881,11), (2001616835,11), (1999660635,11), (1997706278,11), (1995753763,11), (1993803086,11), (1991854245,11), (1989907238,11), (1987962061,11),
    (1986018713,11), (1984077190,11), (1982137490,11), (1980199610,11), (1978263549,11), (1976329302,11), (1974396869,11), (1972466246,11), (1970537430,11), (1968610420,11), (1966685212,11), (1964761805,11), (1962840195,11), (1960920380,11), (1959002357,11), (1957086125,11),
    (1955171680,11), (1953259020,11), (1951348143,11), (1949439046,11), (1947531726,11), (1945626181,11), (1943722409,11), (1941820407,11), (1939920173,11), (1938021704,11), (1936124998,11), (1934230052,11), (1932336864,11), (1930445431,11), (1928555751,11), (1926667822,11),
    (1924781641,11), (1922897205,11), (1921014513,11), (1919133561,11), (1917254348,11), (1915376871,11), (1913501127,11), (1911627115,11), (1909754831,11), (1907884274,11), (1906015441,11), (1904148330,11), (1902282937,11), (1900419262,11), (1898557301,11), (1896697052,11),
    (1894838513,11), (1892981682,11), (1891126556,11), (1889273132,11), (1887421409,11), (1885571383,11), (1883723054,11), (1881876418,11), (1880031473,11), (1878188216,11), (1876346646,11), (1874506760,11), (1872668556,11), (1870832032,11), (1868997185,11), (1867164012,11),
    (1865332512,11), (1863502683,11), (1861674521,11), (1859848025,11), (1858023193,11), (1856200022,11), (1854378510,11), (1852558655,11), (1850740454,11), (1848923905,11), (1847109006,11), (1845295754,11), (1843484148,11), (1841674186,11), (1839865864,11), (1838059181,11),
    (1836254134,11), (1834450722,11), (1832648942,11), (1830848791,11), (1829050269,11), (1827253371,11), (1825458097,11), (1823664444,11), (1821872409,11), (1820081992,11), (1818293188,11), (1816505997,11), (1814720417,11), (1812936444,11), (1811154076,11), (1809373313,11),
    (1807594150,11), (1805816587,11), (1804040621,11), (1802266250,11), (1800493472,11), (1798722284,11), (1796952685,11), (1795184673,11), (1793418244,11), (1791653398,11), (1789890131,11), (1788128443,11), (1786368330,11), (1784609791,11), (1782852824,11), (1781097425,11),
    (1779343595,11), (1777591329,11), (1775840626,11), (1774091485,11), (1772343903,11), (1770597877,11), (1768853406,11), (1767110488,11), (1765369120,11), (1763629301,11), (1761891029,11), (1760154301,11), (1758419115,11), (1756685470,11), (1754953363,11), (1753222793,11),
    (1751493756,11), (1749766252,11), (1748040277,11), (1746315831,11), (1744592911,11), (1742871515,11), (1741151641,11), (1739433287,11), (1737716451,11), (1736001131,11), (1734287324,11), (1732575030,11), (1730864246,11), (1729154970,11), (1727447199,11), (1725740933,11),
    (1724036169,11), (1722332904,11), (1720631138,11), (1718930868,11), (1717232092,11), (1715534808,11), (1713839014,11), (1712144708,11), (1710451889,11), (1708760553,11), (1707070701,11), (1705382328,11), (1703695434,11), (1702010016,11), (1700326074,11), (1698643603,11),
    (1696962603,11), (1695283073,11), (1693605008,11), (1691928409,11), (1690253273,11), (1688579598,11), (1686907382,11), (1685236624,11), (1683567320,11), (1681899471,11), (1680233072,11), (1678568124,11), (1676904623,11), (1675242568,11), (1673581957,11), (1671922789,11),
    (1670265060,11), (1668608770,11), (1666953916,11), (1665300497,11), (1663648511,11), (1661997956,11), (1660348830,11), (1658701131,11), (1657054857,11), (1655410007,11), (1653766578,11), (1652124569,11), (1650483979,11), (1648844804,11), (1647207044,11), (1645570696,11),
    (1643935759,11), (1642302230,11), (1640670109,11), (1639039393,11), (1637410080,11), (1635782169,11), (1634155657,11), (1632530543,11), (1630906826,11), (1629284503,11), (1627663572,11), (1626044033,11), (1624425882,11), (1622809118,11), (1621193740,11), (1619579745,11),
    (1617967133,11), (1616355900,11), (1614746045,11), (1613137568,11), (1611530465,11), (1609924734,11), (1608320376,11), (1606717386,11), (1605115765,11), (1603515509,11), (1601916618,11), (1600319089,11), (1598722921,11), (1597128112,11), (1595534660,11), (1593942564,11),
    (1592351821,11), (1590762431,11), (1589174391,11), (1587587700,11), (1586002355,11), (1584418356,11), (1582835700,11), (1581254387,11), (1579674413,11), (1578095777,11), (1576518479,11), (1574942515,11), (1573367885,11), (1571794586,11), (1570222617,11), (1568651977,11),
    (1567082663,11), (1565514673,11), (1563948007,11), (1562382663,11), (1560818638,11), (1559255932,11), (1557694542,11), (1556134467,11), (1554575705,11), (1553018255,11), (1551462115,11), (1549907282,11), (1548353757,11), (1546801536,11), (1545250619,11), (1543701003,11),
    (1542152687,11), (1540605670,11), (1539059949,11), (1537515524,11), (1535972392,11), (1534430552,11), (1532890002,11), (1531350741,11), (1529812766,11), (1528276078,11), (1526740673,11), (1525206550,11), (1523673707,11), (1522142144,11), (1520611858,11), (1519082848,11),
    (1517555112,11), (1516028648,11), (1514503456,11), (1512979533,11), (1511456878,11), (1509935489,11), (1508415364,11), (1506896503,11), (1505378903,11), (1503862563,11), (1502347482,11), (1500833657,11), (1499321088,11), (1497809772,11), (1496299709,11), (1494790896,11),
    (1493283332,11), (1491777015,11), (1490271945,11), (1488768119,11), (1487265535,11), (1485764193,11), (1484264091,11), (1482765227,11), (1481267599,11), (1479771207,11), (1478276048,11), (1476782122,11), (1475289426,11), (1473797959,11), (1472307720,11), (1470818706,11),
    (1469330918,11), (1467844352,11), (1466359007,11), (1464874883,11), (1463391977,11), (1461910289,11), (1460429815,11), (1458950556,11), (1457472509,11), (1455995673,11), (1454520047,11), (1453045629,11), (1451572417,11), (1450100411,11), (1448629608,11), (1447160007,11),
    (1445691607,11), (1444224406,11), (1442758402,11), (1441293595,11), (1439829983,11), (1438367564,11), (1436906337,11), (1435446300,11), (1433987453,11), (1432529793,11), (1431073318,11), (1429618029,11), (1428163923,11), (1426710998,11), (1425259253,11), (1423808688,11),
    (1422359300,11), (1420911088,11), (1419464050,11), (1418018186,11), (1416573493,11), (1415129970,11), (1413687617,11), (1412246430,11), (1410806410,11), (1409367554,11), (1407929862,11), (1406493331,11), (1405057961,11), (1403623749,11), (1402190696,11), (1400758798,11),
    (1399328055,11), (1397898465,11), (1396470028,11), (1395042741,11), (1393616603,11), (1392191613,11), (1390767769,11), (1389345071,11), (1387923516,11), (1386503103,11), (1385083831,11), (1383665699,11), (1382248705,11), (1380832848,11), (1379418126,11), (1378004538,11),
    (1376592083,11), (1375180759,11), (1373770565,11), (1372361499,11), (1370953561,11), (1369546749,11), (1368141062,11), (1366736497,11), (1365333055,11), (1363930733,11), (1362529530,11), (1361129445,11), (1359730476,11), (1358332623,11), (1356935883,11), (1355540256,11),
    (1354145740,11), (1352752334,11), (1351360037,11), (1349968846,11), (1348578762,11), (1347189782,11), (1345801905,11), (1344415131,11), (1343029457,11), (1341644882,11), (1340261405,11), (1338879025,11), (1337497740,11), (1336117549,11), (1334738452,11), (1333360445,11),
    (1331983529,11), (1330607702,11), (1329232962,11), (1327859309,11), (1326486740,11), (1325115256,11), (1323744854,11), (1322375533,11), (1321007292,11), (1319640129,11), (1318274044,11), (1316909036,11), (1315545101,11), (1314182241,11), (1312820453,11), (1311459735,11),
    (1310100088,11), (1308741509,11), (1307383997,11), (1306027551,11), (1304672170,11), (1303317852,11), (1301964597,11), (1300612402,11), (1299261267,11), (1297911191,11), (1296562172,11), (1295214209,11), (1293867300,11), (1292521445,11), (1291176643,11), (1289832891,11),
    (1288490189,11), (1287148536,11), (1285807930,11), (1284468371,11), (1283129856,11), (1281792385,11), (1280455956,11), (1279120568,11), (1277786221,11), (1276452912,11), (1275120641,11), (1273789407,11), (1272459207,11), (1271130042,11), (1269801909,11), (1268474808,11),
    (1267148737,11), (1265823695,11), (1264499682,11), (1263176695,11), (1261854733,11), (1260533796,11), (1259213882,11), (1257894991,11), (1256577120,11), (1255260268,11), (1253944435,11), (1252629620,11), (1251315820,11), (1250003035,11), (1248691265,11), (1247380506,11),
    (1246070759,11), (1244762022,11), (1243454295,11), (1242147575,11), (1240841862,11), (1239537154,11), (1238233451,11), (1236930751,11), (1235629053,11), (1234328356,11), (1233028659,11), (1231729961,11), (1230432260,11), (1229135555,11), (1227839845,11), (1226545130,11),
    (1225251407,11), (1223958676,11), (1222666936,11), (1221376185,11), (1220086422,11), (1218797647,11), (1217509858,11), (1216223053,11), (1214937233,11), (1213652395,11), (1212368538,11), (1211085662,11), (1209803766,11), (1208522847,11), (1207242906,11), (1205963940,11),
    (1204685949,11), (1203408932,11), (1202132888,11), (1200857815,11), (1199583713,11), (1198310579,11), (1197038414,11), (1195767216,11), (1194496984,11), (1193227717,11), (1191959413,11), (1190692073,11), (1189425693,11), (1188160274,11), (1186895815,11), (1185632314,11),
    (1184369770,11), (1183108182,11), (1181847549,11), (1180587871,11), (1179329145,11), (1178071370,11), (1176814547,11), (1175558673,11), (1174303748,11), (1173049770,11), (1171796738,11), (1170544652,11), (1169293510,11), (1168043311,11), (1166794055,11), (1165545739,11),
    (1164298364,11), (1163051927,11), (1161806429,11), (1160561867,11), (1159318241,11), (1158075549,11), (1156833791,11), (1155592966,11), (1154353073,11), (1153114109,11), (1151876076,11), (1150638971,11), (1149402793,11), (1148167541,11), (1146933215,11), (1145699813,11),
    (1144467334,11), (1143235777,11), (1142005142,11), (1140775426,11), (1139546630,11), (1138318752,11), (1137091790,11), (1135865745,11), (1134640615,11), (1133416398,11), (1132193095,11), (1130970703,11), (1129749222,11), (1128528651,11), (1127308989,11), (1126090235,11),
    (1124872388,11), (1123655446,11), (1122439409,11), (1121224276,11), (1120010046,11), (1118796717,11), (1117584289,11), (1116372761,11), (1115162132,11), (1113952401,11), (1112743566,11), (1111535627,11), (1110328583,11), (1109122433,11), (1107917175,11), (1106712809,11),
    (1105509334,11), (1104306749,11), (1103105053,11), (1101904244,11), (1100704322,11), (1099505287,11), (1098307136,11), (1097109869,11), (1095913485,11), (1094717983,11), (1093523361,11), (1092329620,11), (1091136758,11), (1089944774,11), (1088753668,11), (1087563437,11),
    (1086374081,11), (1085185600,11), (1083997992,11), (1082811256,11), (1081625391,11), (1080440397,11), (1079256273,11), (1078073016,11), (1076890628,11), (1075709105,11), (1074528449,11), (1073348656,11), (1072169728,11), (1070991662,11), (1069814459,11), (1068638116,11),
    (1067462633,11), (1066288008,11), (1065114242,11), (1063941333,11), (1062769280,11), (1061598083,11), (1060427739,11), (1059258249,11), (1058089611,11), (1056921825,11), (1055754889,11), (1054588803,11), (1053423566,11), (1052259176,11), (1051095633,11), (1049932936,11),
    (1048771084,11), (1047610077,11), (1046449912,11), (1045290589,11), (1044132108,11), (1042974467,11), (1041817666,11), (1040661703,11), (1039506578,11), (1038352290,11), (1037198837,11), (1036046219,11), (1034894436,11), (1033743485,11), (1032593367,11), (1031444080,11),
    (1030295624,11), (1029147996,11), (1028001198,11), (1026855227,11), (1025710083,11), (1024565765,11), (1023422273,11), (1022279604,11), (1021137758,11), (1019996735,11), (1018856533,11), (1017717152,11), (1016578591,11), (1015440848,11), (1014303923,11), (1013167816,11),
    (1012032524,11), (1010898048,11), (1009764386,11), (1008631538,11), (1007499503,11), (1006368279,11), (1005237866,11), (1004108263,11), (1002979469,11), (1001851484,11), (1000724306,11), (999597935,11), (998472369,11), (997347608,11), (996223651,11), (995100498,11),
    (993978146,11), (992856596,11), (991735847,11), (990615897,11), (989496746,11), (988378393,11), (987260837,11), (986144077,11), (985028113,11), (983912943,11), (982798567,11), (981684984,11), (980572193,11), (979460193,11), (978348983,11), (977238563,11),
    (976128931,11), (975020088,11), (973912031,11), (972804761,11), (971698275,11), (970592574,11), (969487657,11), (968383523,11), (967280171,11), (966177599,11), (965075808,11), (963974797,11), (962874564,11), (961775109,11), (960676431,11), (959578529,11),
    (958481403,11), (957385051,11), (956289473,11), (955194667,11), (954100634,11), (953007372,11), (951914880,11), (950823158,11), (949732205,11), (948642020,11), (947552602,11), (946463951,11), (945376065,11), (944288944,11), (943202587,11), (942116993,11),
    (941032161,11), (939948091,11), (938864781,11), (937782232,11), (936700442,11), (935619410,11), (934539135,11), (933459618,11), (932380856,11), (931302850,11), (930225597,11), (929149099,11), (928073353,11), (926998360,11), (925924117,11), (924850625,11),
    (923777883,11), (922705889,11), (921634644,11), (920564145,11), (919494394,11), (918425388,11), (917357127,11), (916289610,11), (915222837,11), (914156806,11), (913091517,11), (912026969,11), (910963161,11), (909900093,11), (908837764,11), (907776173,11),
    (906715319,11), (905655201,11), (904595819,11), (903537172,11), (902479259,11), (901422079,11), (900365633,11), (899309918,11), (898254934,11), (897200680,11), (896147156,11), (895094361,11), (894042294,11), (892990954,11), (891940341,11), (890890453,11),
    (889841291,11), (888792853,11), (887745139,11), (886698147,11), (885651877,11), (884606329,11), (883561501,11), (882517394,11), (881474005,11), (880431334,11), (879389381,11), (878348145,11), (877307626,11), (876267821,11), (875228731,11), (874190355,11),
    (873152693,11), (872115742,11), (871079504,11), (870043976,11), (869009158,11), (867975051,11), (866941651,11), (865908960,11), (864876977,11), (863845699,11), (862815128,11), (861785262,11), (860756100,11), (859727642,11), (858699887,11), (857672834,11),
    (856646483,11), (855620833,11), (854595882,11), (853571631,11), (852548079,11), (851525225,11), (850503068,11), (849481607,11), (848460842,11), (847440773,11), (846421397,11), (845402716,11), (844384727,11), (843367431,11), (842350826,11), (841334913,11),
    (840319689,11), (839305155,11), (838291309,11), (837278152,11), (836265682,11), (835253898,11), (834242801,11), (833232388,11), (832222661,11), (831213617,11), (830205256,11), (829197578,11), (828190582,11), (827184267,11), (826178632,11), (825173677,11),
    (824169401,11), (823165803,11), (822162883,11), (821160639,11), (820159073,11), (819158181,11), (818157965,11), (817158423,11), (816159554,11), (815161358,11), (814163835,11), (813166983,11), (812170801,11), (811175290,11), (810180449,11), (809186276,11),
    (808192771,11), (807199934,11), (806207764,11), (805216259,11), (804225420,11), (803235246,11), (802245736,11), (801256890,11), (800268706,11), (799281184,11), (798294324,11), (797308124,11), (796322585,11), (795337705,11), (794353484,11), (793369921,11),
    (792387015,11), (791404766,11), (790423174,11), (789442236,11), (788461954,11), (787482326,11), (786503351,11), (785525029,11), (784547360,11), (783570342,11), (782593975,11), (781618258,11), (780643191,11), (779668773,11), (778695003,11), (777721880,11),
    (776749405,11), (775777576,11), (774806393,11), (773835855,11), (772865961,11), (771896712,11), (770928105,11), (769960141,11), (768992819,11), (768026138,11), (767060097,11), (766094697,11), (765129936,11), (764165814,11), (763202329,11), (762239483,11),
    (761277273,11), (760315699,11), (759354760,11), (758394457,11), (757434788,11), (756475752,11), (755517350,11), (754559580,11), (753602442,11), (752645935,11), (751690058,11), (750734811,11), (749780194,11), (748826205,11), (747872844,11), (746920111,11),
    (745968005,11), (745016524,11), (744065669,11), (743115440,11), (742165834,11), (741216852,11), (740268494,11), (739320758,11), (738373643,11), (737427150,11), (736481278,11), (735536025,11), (734591393,11), (733647378,11), (732703983,11), (731761204,11),
    (730819043,11), (729877498,11), (728936569,11), (727996255,11), (727056556,11), (726117471,11), (725178999,11), (724241139,11), (723303892,11), (722367257,11), (721431233,11), (720495818,11), (719561014,11), (718626819,11), (717693233,11), (716760254,11),
    (715827883,11), (714896119,11), (713964961,11), (713034409,11), (712104461,11), (711175118,11), (710246379,11), (709318243,11), (708390710,11), (707463779,11), (706537450,11), (705611721,11), (704686593,11), (703762065,11), (702838135,11), (701914805,11),
    (700992072,11), (700069937,11), (699148399,11), (698227456,11), (697307110,11), (696387359,11), (695468202,11), (694549639,11), (693631670,11), (692714293,11), (691797509,11), (690881316,11), (689965715,11), (689050703,11), (688136282,11), (687222451,11),
    (686309208,11), (685396553,11), (684484486,11), (683573006,11), (682662113,11), (681751805,11), (680842083,11), (679932946,11), (679024393,11), (678116424,11), (677209038,11), (676302234,11), (675396013,11), (674490373,11), (673585314,11), (672680835,11),
    (671776937,11), (670873617,11), (669970876,11), (669068713,11), (668167128,11), (667266120,11), (666365688,11), (665465832,11), (664566551,11), (663667846,11), (662769714,11), (661872156,11), (660975172,11), (660078760,11), (659182920,11), (658287651,11),
    (657392954,11), (656498827,11), (655605270,11), (654712282,11), (653819863,11), (652928012,11), (652036729,11), (651146013,11), (650255863,11), (649366280,11), (648477262,11), (647588810,11), (646700921,11), (645813597,11), (644926836,11), (644040638,11),
    (643155002,11), (642269928,11), (641385415,11), (640501463,11), (639618071,11), (638735238,11), (637852965,11), (636971250,11), (636090094,11), (635209495,11), (634329453,11), (633449967,11), (632571037,11), (631692663,11), (630814843,11), (629937578,11),
    (629060867,11), (628184709,11), (627309104,11), (626434051,11), (625559550,11), (624685600,11), (623812201,11), (622939352,11), (622067052,11), (621195302,11), (620324100,11), (619453447,11), (618583341,11), (617713782,11), (616844769,11), (615976303,11),
    (615108382,11), (614241006,11), (613374175,11), (612507888,11), (611642144,11), (610776943,11), (609912284,11), (609048168,11), (608184593,11), (607321558,11), (606459065,11), (605597111,11), (604735696,11), (603874821,11), (603014483,11), (602154684,11),
    (601295422,11), (600436697,11), (599578508,11), (598720855,11), (597863738,11), (597007155,11), (596151107,11), (595295592,11), (594440611,11), (593586163,11), (592732247,11), (591878863,11), (591026011,11), (590173689,11), (589321898,11), (588470636,11),
    (587619904,11), (586769701,11), (585920026,11), (585070879,11), (584222260,11), (583374168,11), (582526601,11), (581679561,11), (580833047,11), (579987057,11), (579141592,11), (578296651,11), (577452233,11), (576608338,11), (575764966,11), (574922116,11),
    (574079788,11), (573237980,11), (572396693,11), (571555927,11), (570715680,11), (569875952,11), (569036742,11), (568198051,11), (567359878,11), (566522222,11), (565685082,11), (564848459,11), (564012352,11), (563176760,11), (562341683,11), (561507120,11),
    (560673071,11), (559839536,11), (559006513,11), (558174003,11), (557342005,11), (556510519,11), (555679543,11), (554849078,11), (554019123,11), (553189678,11), (552360742,11), (551532315,11), (550704396,11), (549876985,11), (549050081,11), (548223684,11),
    (547397793,11), (546572408,11), (545747529,11), (544923155,11), (544099285,11), (543275919,11), (542453057,11), (541630697,11), (540808841,11), (539987487,11), (539166634,11), (538346283,11), (537526433,11), (536707082,11), (535888232,11), (535069882,11),
    (534252030,11), (533434677,11), (532617822,11), (531801464,11), (530985604,11), (530170241,11), (529355373,11), (528541002,11), (527727126,11), (526913744,11), (526100858,11), (525288465,11), (524476566,11), (523665160,11), (522854246,11), (522043825,11),
    (521233896,11), (520424458,11), (519615510,11), (518807053,11), (517999087,11), (517191609,11), (516384621,11), (515578121,11), (514772110,11), (513966586,11), (513161550,11), (512357000,11), (511552937,11), (510749360,11), (509946269,11), (509143662,11),
    (508341540,11), (507539903,11), (506738749,11), (505938079,11), (505137891,11), (504338186,11), (503538963,11), (502740222,11), (501941962,11), (501144182,11), (500346883,11), (499550064,11), (498753724,11), (497957863,11), (497162481,11), (496367576,11),
    (495573150,11), (494779201,11), (493985729,11), (493192733,11), (492400213,11), (491608168,11), (490816599,11), (490025505,11), (489234884,11), (488444738,11), (487655065,11), (486865865,11), (486077138,11), (485288882,11), (484501099,11), (483713787,11),
    (482926945,11), (482140574,11), (481354674,11), (480569242,11), (479784280,11), (478999787,11), (478215762,11), (477432205,11), (476649116,11), (475866493,11), (475084338,11), (474302648,11), (473521425,11), (472740667,11), (471960373,11), (471180545,11),
    (470401181,11), (469622280,11), (468843843,11), (468065868,11), (467288357,11), (466511307,11), (465734719,11), (464958593,11), (464182927,11), (463407722,11), (462632976,11), (461858691,11), (461084864,11), (460311497,11), (459538588,11), (458766137,11),
    (457994143,11), (457222607,11), (456451528,11), (455680905,11), (454910738,11), (454141026,11), (453371770,11), (452602969,11), (451834621,11), (451066728,11), (450299289,11), (449532302,11), (448765769,11), (447999687,11), (447234058,11), (446468880,11),
    (445704154,11), (444939878,11), (444176053,11), (443412677,11), (442649751,11), (441887275,11), (441125247,11), (440363667,11), (439602536,11), (438841852,11), (438081615,11), (437321825,11), (436562481,11), (435803584,11), (435045132,11), (434287125,11),
    (433529563,11), (432772446,11), (432015773,11), (431259543,11), (430503756,11), (429748413,11), (428993512,11), (428239053,11), (427485036,11), (426731460,11), (425978325,11), (425225631,11), (424473377,11), (423721562,11), (422970187,11), (422219251,11),
    (421468754,11), (420718695,11), (419969074,11), (419219890,11), (418471143,11), (417722833,11), (416974960,11), (416227522,11), (415480520,11), (414733953,11), (413987821,11), (413242123,11), (412496860,11), (411752030,11), (411007633,11), (410263669,11),
    (409520138,11), (408777039,11), (408034372,11), (407292136,11), (406550331,11), (405808957,11), (405068013,11), (404327499,11), (403587415,11), (402847759,11), (402108533,11), (401369735,11), (400631365,11), (399893422,11), (399155907,11), (398418819,11),
    (397682158,11), (396945922,11), (396210113,11), (395474728,11), (394739769,11), (394005235,11), (393271125,11), (392537439,11), (391804176,11), (391071337,11), (390338921,11), (389606927,11), (388875355,11), (388144206,11), (387413477,11), (386683170,11),
    (385953283,11), (385223816,11), (384494770,11), (383766143,11), (383037935,11), (382310147,11), (381582776,11), (380855824,11), (380129290,11), (379403173,11), (378677473,11), (377952190,11), (377227323,11), (376502873,11), (375778837,11), (375055217,11),
    (374332013,11), (373609222,11), (372886846,11), (372164884,11), (371443335,11), (370722199,11), (370001476,11), (369281166,11), (368561267,11), (367841781,11), (367122705,11), (366404041,11), (365685787,11), (364967944,11), (364250511,11), (363533487,11),
    (362816873,11), (362100667,11), (361384870,11), (360669481,11), (359954500,11), (359239927,11), (358525761,11), (357812001,11), (357098648,11), (356385701,11), (355673160,11), (354961025,11), (354249294,11), (353537968,11), (352827047,11), (352116529,11),
    (351406416,11), (350696705,11), (349987398,11), (349278493,11), (348569991,11), (347861891,11), (347154192,11), (346446895,11), (345739998,11), (345033502,11), (344327407,11), (343621711,11), (342916415,11), (342211519,11), (341507021,11), (340802922,11),
    (340099221,11), (339395918,11), (338693012,11), (337990504,11), (337288393,11), (336586678,11), (335885359,11), (335184437,11), (334483910,11), (333783778,11), (333084041,11), (332384698,11), (331685750,11), (330987196,11), (330289035,11), (329591267,11),
    (328893893,11), (328196910,11), (327500320,11), (326804122,11), (326108316,11), (325412901,11), (324717876,11), (324023243,11), (323328999,11), (322635146,11), (321941682,11), (321248607,11), (320555921,11), (319863624,11), (319171715,11), (318480194,11),
    (317789061,11), (317098314,11), (316407955,11), (315717983,11), (315028397,11), (314339197,11), (313650382,11), (312961953,11), (312273909,11), (311586250,11), (310898975,11), (310212084,11), (309525577,11), (308839453,11), (308153712,11), (307468354,11),
    (306783379,11), (306098785,11), (305414574,11), (304730744,11), (304047295,11), (303364227,11), (302681540,11), (301999233,11), (301317305,11), (300635758,11), (299954589,11), (299273800,11), (298593389,11), (297913356,11), (297233702,11), (296554425,11),
    (295875525,11), (295197003,11), (294518857,11), (293841088,11), (293163695,11), (292486678,11), (291810036,11), (291133769,11), (290457878,11), (289782360,11), (289107217,11), (288432448,11), (287758053,11), (287084031,11), (286410382,11), (285737106,11),
    (285064202,11), (284391670,11), (283719510,11), (283047721,11), (282376303,11), (281705257,11), (281034581,11), (280364275,11), (279694339,11), (279024772,11), (278355575,11), (277686747,11), (277018288,11), (276350197,11), (275682474,11), (275015119,11),
    (274348132,11), (273681511,11), (273015258,11), (272349371,11), (271683850,11), (271018696,11), (270353907,11), (269689483,11), (269025425,11), (268361731,11), (267698401,11), (267035436,11), (266372835,11), (265710597,11), (265048723,11), (264387211,11),
    (263726063,11), (263065276,11), (262404852,11), (261744789,11), (261085088,11), (260425748,11), (259766769,11), (259108151,11), (258449892,11), (257791994,11), (257134456,11), (256477277,11), (255820457,11), (255163996,11), (254507893,11), (253852149,11),
    (253196762,11), (252541734,11), (251887062,11), (251232748,11), (250578790,11), (249925189,11), (249271944,11), (248619055,11), (247966522,11), (247314344,11), (246662521,11), (246011052,11), (245359939,11), (244709179,11), (244058773,11), (243408721,11),
    (242759022,11), (242109676,11), (241460682,11), (240812041,11), (240163753,11), (239515816,11), (238868230,11), (238220996,11), (237574113,11), (236927581,11), (236281399,11), (235635567,11), (234990085,11), (234344953,11), (233700170,11), (233055736,11),
    (232411651,11), (231767914,11), (231124525,11), (230481484,11), (229838791,11), (229196445,11), (228554446,11), (227912794,11), (227271488,11), (226630529,11), (225989915,11), (225349647,11), (224709724,11), (224070147,11), (223430914,11), (222792025,11),
    (222153481,11), (221515281,11), (220877425,11), (220239912,11), (219602742,11), (218965915,11), (218329430,11), (217693288,11), (217057488,11), (216422029,11), (215786912,11), (215152136,11), (214517701,11), (213883607,11), (213249853,11), (212616439,11),
    (211983365,11), (211350630,11), (210718235,11), (210086179,11), (209454461,11), (208823082,11), (208192041,11), (207561338,11), (206930973,11), (206300945,11), (205671254,11), (205041900,11), (204412883,11), (203784201,11), (203155856,11), (202527847,11),
    (201900173,11), (201272834,11), (200645830,11), (200019161,11), (199392826,11), (198766825,11), (198141158,11), (197515825,11), (196890825,11), (196266159,11), (195641825,11), (195017823,11), (194394154,11), (193770817,11), (193147811,11), (192525137,11),
    (191902795,11), (191280783,11), (190659102,11), (190037751,11), (189416730,11), (188796040,11), (188175679,11), (187555647,11), (186935944,11), (186316571,11), (185697525,11), (185078809,11), (184460420,11), (183842359,11), (183224625,11), (182607219,11),
    (181990140,11), (181373388,11), (180756962,11), (180140862,11), (179525089,11), (178909641,11), (178294518,11), (177679721,11), (177065248,11), (176451101,11), (175837278,11), (175223778,11), (174610603,11), (173997752,11), (173385224,11), (172773019,11),
    (172161137,11), (171549577,11), (170938340,11), (170327426,11), (169716833,11), (169106561,11), (168496611,11), (167886982,11), (167277674,11), (166668687,11), (166060020,11), (165451673,11), (164843645,11), (164235938,11), (163628550,11), (163021480,11),
    (162414730,11), (161808298,11), (161202185,11), (160596390,11), (159990912,11), (159385753,11), (158780910,11), (158176385,11), (157572176,11), (156968284,11), (156364708,11), (155761449,11), (155158505,11), (154555877,11), (153953564,11), (153351566,11),
    (152749883,11), (152148515,11), (151547461,11), (150946722,11), (150346296,11), (149746183,11), (149146384,11), (148546899,11), (147947726,11), (147348865,11), (146750318,11), (146152082,11), (145554158,11), (144956546,11), (144359245,11), (143762256,11),
    (143165577,11), (142569209,11), (141973152,11), (141377404,11), (140781967,11), (140186839,11), (139592021,11), (138997512,11), (138403313,11), (137809421,11), (137215839,11), (136622564,11), (136029598,11), (135436940,11), (134844589,11), (134252545,11),
    (133660808,11), (133069379,11), (132478256,11), (131887439,11), (131296928,11), (130706723,11), (130116824,11), (129527231,11), (128937942,11), (128348959,11), (127760280,11), (127171905,11), (126583835,11), (125996069,11), (125408606,11), (124821447,11),
    (124234592,11), (123648039,11), (123061789,11), (122475842,11), (121890197,11), (121304854,11), (120719814,11), (120135074,11), (119550637,11), (118966500,11), (118382664,11), (117799129,11), (117215895,11), (116632961,11), (116050326,11), (115467992,11),
    (114885957,11), (114304221,11), (113722785,11), (113141647,11), (112560808,11), (111980268,11), (111400025,11), (110820081,11), (110240434,11), (109661085,11), (109082033,11), (108503278,11), (107924820,11), (107346658,11), (106768793,11), (106191224,11),
    (105613950,11), (105036973,11), (104460291,11), (103883904,11), (103307812,11), (102732014,11), (102156512,11), (101581303,11), (101006389,11), (100431768,11), (99857441,11), (99283408,11), (98709668,11), (98136220,11), (97563066,11), (96990204,11),
    (96417634,11), (95845356,11), (95273370,11), (94701676,11), (94130273,11), (93559161,11), (92988340,11), (92417810,11), (91847570,11), (91277621,11), (90707961,11), (90138592,11), (89569512,11), (89000721,11), (88432220,11), (87864007,11),
    (87296084,11), (86728449,11), (86161102,11), (85594043,11), (85027272,11), (84460788,11), (83894593,11), (83328684,11), (82763062,11), (82197727,11), (81632678,11), (81067916,11), (80503440,11), (79939250,11), (79375345,11), (78811726,11),
    (78248393,11), (77685344,11), (77122580,11), (76560100,11), (75997905,11), (75435994,11), (74874367,11), (74313024,11), (73751964,11), (73191188,11), (72630694,11), (72070484,11), (71510556,11), (70950910,11), (70391547,11), (69832466,11),
    (69273667,11), (68715149,11), (68156912,11), (67598957,11), (67041283,11), (66483889,11), (65926776,11), (65369943,11), (64813390,11), (64257117,11), (63701124,11), (63145411,11), (62589976,11), (62034821,11), (61479944,11), (60925346,11),
    (60371027,11), (59816985,11), (59263222,11), (58709737,11), (58156529,11), (57603598,11), (57050945,11), (56498568,11), (55946468,11), (55394645,11), (54843098,11), (54291827,11), (53740833,11), (53190113,11), (52639670,11), (52089501,11),
    (51539608,11), (50989990,11), (50440646,11), (49891577,11), (49342782,11), (48794261,11), (48246014,11), (47698040,11), (47150340,11), (46602913,11), (46055760,11), (45508879,11), (44962270,11), (44415934,11), (43869871,11), (43324079,11),
    (42778559,11), (42233311,11), (41688334,11), (41143628,11), (40599194,11), (40055030,11), (39511137,11), (38967514,11), (38424161,11), (37881079,11), (37338266,11), (36795722,11), (36253448,11), (35711444,11), (35169708,11), (34628241,11),
    (34087043,11), (33546113,11), (33005451,11), (32465057,11), (31924931,11), (31385072,11), (30845481,11), (30306157,11), (29767101,11), (29228310,11), (28689787,11), (28151530,11), (27613539,11), (27075814,11), (26538355,11), (26001162,11),
    (25464233,11), (24927571,11), (24391173,11), (23855040,11), (23319171,11), (22783567,11), (22248228,11), (21713152,11), (21178340,11), (20643792,11), (20109507,11), (19575486,11), (19041727,11), (18508232,11), (17974999,11), (17442029,11),
    (16909321,11), (16376875,11), (15844690,11), (15312768,11), (14781107,11), (14249708,11), (13718569,11), (13187692,11), (12657075,11), (12126719,11), (11596623,11), (11066787,11), (10537212,11), (10007896,11), (9478840,11), (8950043,11),
    (8421505,11), (7893226,11), (7365207,11), (6837445,11), (6309943,11), (5782698,11), (5255712,11), (4728983,11), (4202513,11), (3676299,11), (3150343,11), (2624644,11), (2099203,11), (1574017,11), (1049089,11), (524417,11),
    (2147483649,12), (2146435328,12), (2145387520,12), (2144340223,12), (2143293437,12), (2142247161,12), (2141201395,12), (2140156139,12), (2139111393,12), (2138067155,12), (2137023426,12), (2135980206,12), (2134937493,12), (2133895288,12), (2132853590,12), (2131812398,12),
    (2130771713,12), (2129731535,12), (2128691862,12), (2127652694,12), (2126614031,12), (2125575873,12), (2124538219,12), (2123501068,12), (2122464422,12), (2121428278,12), (2120392637,12), (2119357498,12), (2118322862,12), (2117288727,12), (2116255093,12), (2115221961,12),
    (2114189328,12), (2113157196,12), (2112125564,12), (2111094432,12), (2110063798,12), (2109033663,12), (2108004027,12), (2106974888,12), (2105946247,12), (2104918104,12), (2103890457,12), (2102863307,12), (2101836653,12), (2100810495,12), (2099784833,12), (2098759665,12),
    (2097734993,12), (2096710814,12), (2095687130,12), (2094663940,12), (2093641243,12), (2092619039,12), (2091597327,12), (2090576108,12), (2089555381,12), (2088535145,12), (2087515400,12), (2086496147,12), (2085477383,12), (2084459110,12), (2083441327,12), (2082424033,12),
    (2081407229,12), (2080390913,12), (2079375085,12), (2078359745,12), (2077344893,12), (2076330529,12), (2075316651,12), (2074303260,12), (2073290355,12), (2072277937,12), (2071266003,12), (2070254555,12), (2069243592,12), (2068233114,12), (2067223119,12), (2066213609,12),
    (2065204582,12), (2064196038,12), (2063187976,12), (2062180398,12), (2061173301,12), (2060166686,12), (2059160553,12), (2058154900,12), (2057149728,12), (2056145037,12), (2055140826,12), (2054137094,12), (2053133842,12), (2052131068,12), (2051128774,12), (2050126957,12),
    (2049125619,12), (2048124758,12), (2047124375,12), (2046124468,12), (2045125038,12), (2044126084,12), (2043127607,12), (2042129604,12), (2041132077,12), (2040135025,12), (2039138448,12), (2038142345,12), (2037146715,12), (2036151559,12), (2035156877,12), (2034162667,12),
    (2033168930,12), (2032175665,12), (2031182871,12), (2030190550,12), (2029198699,12), (2028207320,12), (2027216411,12), (2026225972,12), (2025236003,12), (2024246503,12), (2023257473,12), (2022268911,12), (2021280818,12), (2020293193,12), (2019306036,12), (2018319347,12),
    (2017333124,12), (2016347369,12), (2015362080,12), (2014377257,12), (2013392900,12), (2012409009,12), (2011425583,12), (2010442622,12), (2009460125,12), (2008478092,12), (2007496524,12), (2006515418,12), (2005534777,12), (2004554598,12), (2003574881,12), (2002595627,12),
    (2001616835,12), (2000638504,12), (1999660635,12), (1998683226,12), (1997706278,12), (1996729791,12), (1995753763,12), (1994778195,12), (1993803086,12), (1992828436,12), (1991854245,12), (1990880513,12), (1989907238,12), (1988934421,12), (1987962061,12), (1986990158,12),
    (1986018713,12), (1985047723,12), (1984077190,12), (1983107112,12), (1982137490,12), (1981168323,12), (1980199610,12), (1979231352,12), (1978263549,12), (1977296199,12), (1976329302,12), (1975362859,12), (1974396869,12), (1973431331,12), (1972466246,12), (1971501612,12),
    (1970537430,12), (1969573700,12), (1968610420,12), (1967647591,12), (1966685212,12), (1965723284,12), (1964761805,12), (1963800775,12), (1962840195,12), (1961880063,12), (1960920380,12), (1959961145,12), (1959002357,12), (1958044017,12), (1957086125,12), (1956128679,12),
    (1955171680,12), (1954215127,12), (1953259020,12), (1952303359,12), (1951348143,12), (1950393372,12), (1949439046,12), (1948485164,12), (1947531726,12), (1946578732,12), (1945626181,12), (1944674074,12), (1943722409,12), (1942771187,12), (1941820407,12), (1940870070,12),
    (1939920173,12), (1938970718,12), (1938021704,12), (1937073131,12), (1936124998,12), (1935177305,12), (1934230052,12), (1933283238,12), (1932336864,12), (1931390928,12), (1930445431,12), (1929500372,12), (1928555751,12), (1927611568,12), (1926667822,12), (1925724513,12),
    (1924781641,12), (1923839205,12), (1922897205,12), (1921955641,12), (1921014513,12), (1920073819,12), (1919133561,12), (1918193737,12), (1917254348,12), (1916315393,12), (1915376871,12), (1914438783,12), (1913501127,12), (1912563905,12), (1911627115,12), (1910690757,12),
    (1909754831,12), (1908819337,12), (1907884274,12), (1906949642,12), (1906015441,12), (1905081670,12), (1904148330,12), (1903215419,12), (1902282937,12), (1901350885,12), (1900419262,12), (1899488067,12), (1898557301,12), (1897626963,12), (1896697052,12), (1895767569,12),
    (1894838513,12), (1893909884,12), (1892981682,12), (1892053906,12), (1891126556,12), (1890199631,12), (1889273132,12), (1888347058,12), (1887421409,12), (1886496184,12), (1885571383,12), (1884647007,12), (1883723054,12), (1882799524,12), (1881876418,12), (1880953734,12),
    (1880031473,12), (1879109633,12), (1878188216,12), (1877267221,12), (1876346646,12), (1875426493,12), (1874506760,12), (1873587448,12), (1872668556,12), (1871750084,12), (1870832032,12), (1869914399,12), (1868997185,12), (1868080389,12), (1867164012,12), (1866248053,12),
    (1865332512,12), (1864417389,12), (1863502683,12), (1862588394,12), (1861674521,12), (1860761065,12), (1859848025,12), (1858935402,12), (1858023193,12), (1857111400,12), (1856200022,12), (1855289059,12), (1854378510,12), (1853468375,12), (1852558655,12), (1851649347,12),
    (1850740454,12), (1849831973,12), (1848923905,12), (1848016249,12), (1847109006,12), (1846202174,12), (1845295754,12), (1844389746,12), (1843484148,12), (1842578962,12), (1841674186,12), (1840769820,12), (1839865864,12), (1838962318,12), (1838059181,12), (1837156453,12),
    (1836254134,12), (1835352224,12), (1834450722,12), (1833549628,12), (1832648942,12), (1831748663,12), (1830848791,12), (1829949327,12), (1829050269,12), (1828151617,12), (1827253371,12), (1826355531,12), (1825458097,12), (1824561068,12), (1823664444,12), (1822768224,12),
    (1821872409,12), (1820976999,12), (1820081992,12), (1819187388,12), (1818293188,12), (1817399392,12), (1816505997,12), (1815613006,12), (1814720417,12), (1813828229,12), (1812936444,12), (1812045059,12), (1811154076,12), (1810263494,12), (1809373313,12), (1808483531,12),
    (1807594150,12), (1806705169,12), (1805816587,12), (1804928405,12), (1804040621,12), (1803153236,12), (1802266250,12), (1801379662,12), (1800493472,12), (1799607679,12), (1798722284,12), (1797837286,12), (1796952685,12), (1796068481,12), (1795184673,12), (1794301261,12),
    (1793418244,12), (1792535623,12), (1791653398,12), (1790771567,12), (1789890131,12), (1789009090,12), (1788128443,12), (1787248190,12), (1786368330,12), (1785488864,12), (1784609791,12), (1783731111,12), (1782852824,12), (1781974928,12), (1781097425,12), (1780220314,12),
    (1779343595,12), (1778467266,12), (1777591329,12), (1776715782,12), (1775840626,12), (1774965861,12), (1774091485,12), (1773217499,12), (1772343903,12), (1771470695,12), (1770597877,12), (1769725447,12), (1768853406,12), (1767981753,12), (1767110488,12), (1766239610,12),
    (1765369120,12), (1764499017,12), (1763629301,12), (1762759972,12), (1761891029,12), (1761022472,12), (1760154301,12), (1759286516,12), (1758419115,12), (1757552100,12), (1756685470,12), (1755819225,12), (1754953363,12), (1754087886,12), (1753222793,12), (1752358083,12),
    (1751493756,12), (1750629812,12), (1749766252,12), (1748903073,12), (1748040277,12), (1747177863,12), (1746315831,12), (1745454180,12), (1744592911,12), (1743732023,12), (1742871515,12), (1742011388,12), (1741151641,12), (1740292274,12), (1739433287,12), (1738574679,12),
    (1737716451,12), (1736858601,12), (1736001131,12), (1735144038,12), (1734287324,12), (1733430988,12), (1732575030,12), (1731719449,12), (1730864246,12), (1730009419,12), (1729154970,12), (1728300896,12), (1727447199,12), (1726593878,12), (1725740933,12), (1724888363,12),
    (1724036169,12), (1723184349,12), (1722332904,12), (1721481834,12), (1720631138,12), (1719780816,12), (1718930868,12), (1718081293,12), (1717232092,12), (1716383263,12), (1715534808,12), (1714686724,12), (1713839014,12), (1712991675,12), (1712144708,12), (1711298113,12),
    (1710451889,12), (1709606036,12), (1708760553,12), (1707915442,12), (1707070701,12), (1706226329,12), (1705382328,12), (1704538696,12), (1703695434,12), (1702852541,12), (1702010016,12), (1701167861,12), (1700326074,12), (1699484654,12), (1698643603,12), (1697802920,12),
    (1696962603,12), (1696122655,12), (1695283073,12), (1694443857,12), (1693605008,12), (1692766526,12), (1691928409,12), (1691090659,12), (1690253273,12), (1689416253,12), (1688579598,12), (1687743308,12), (1686907382,12), (1686071821,12), (1685236624,12), (1684401790,12),
    (1683567320,12), (1682733214,12), (1681899471,12), (1681066090,12), (1680233072,12), (1679400417,12), (1678568124,12), (1677736193,12), (1676904623,12), (1676073415,12), (1675242568,12), (1674412082,12), (1673581957,12), (1672752193,12), (1671922789,12), (1671093744,12),
    (1670265060,12), (1669436735,12), (1668608770,12), (1667781164,12), (1666953916,12), (1666127028,12), (1665300497,12), (1664474325,12), (1663648511,12), (1662823055,12), (1661997956,12), (1661173214,12), (1660348830,12), (1659524802,12), (1658701131,12), (1657877816,12),
    (1657054857,12), (1656232254,12), (1655410007,12), (1654588115,12), (1653766578,12), (1652945396,12), (1652124569,12), (1651304097,12), (1650483979,12), (1649664214,12), (1648844804,12), (1648025747,12), (1647207044,12), (1646388693,12), (1645570696,12), (1644753051,12),
    (1643935759,12), (1643118818,12), (1642302230,12), (1641485994,12), (1640670109,12), (1639854575,12), (1639039393,12), (1638224561,12), (1637410080,12), (1636595949,12), (1635782169,12), (1634968738,12), (1634155657,12), (1633342926,12), (1632530543,12), (1631718510,12),
    (1630906826,12), (1630095490,12), (1629284503,12), (1628473864,12), (1627663572,12), (1626853629,12), (1626044033,12), (1625234784,12), (1624425882,12), (1623617327,12), (1622809118,12), (1622001256,12), (1621193740,12), (1620386570,12), (1619579745,12), (1618773266,12),
    (1617967133,12), (1617161344,12), (1616355900,12), (1615550801,12), (1614746045,12), (1613941635,12), (1613137568,12), (1612333844,12), (1611530465,12), (1610727428,12), (1609924734,12), (1609122384,12), (1608320376,12), (1607518710,12), (1606717386,12), (1605916405,12),
    (1605115765,12), (1604315466,12), (1603515509,12), (1602715893,12), (1601916618,12), (1601117683,12), (1600319089,12), (1599520835,12), (1598722921,12), (1597925346,12), (1597128112,12), (1596331216,12), (1595534660,12), (1594738442,12), (1593942564,12), (1593147023,12),
    (1592351821,12), (1591556957,12), (1590762431,12), (1589968242,12), (1589174391,12), (1588380877,12), (1587587700,12), (1586794859,12), (1586002355,12), (1585210188,12), (1584418356,12), (1583626860,12), (1582835700,12), (1582044876,12), (1581254387,12), (1580464232,12),
    (1579674413,12), (1578884928,12), (1578095777,12), (1577306961,12), (1576518479,12), (1575730330,12), (1574942515,12), (1574155033,12), (1573367885,12), (1572581069,12), (1571794586,12), (1571008435,12), (1570222617,12), (1569437131,12), (1568651977,12), (1567867154,12),
    (1567082663,12), (1566298502,12), (1565514673,12), (1564731175,12), (1563948007,12), (1563165170,12), (1562382663,12), (1561600486,12), (1560818638,12), (1560037121,12), (1559255932,12), (1558475073,12), (1557694542,12), (1556914340,12), (1556134467,12), (1555354922,12),
    (1554575705,12), (1553796816,12), (1553018255,12), (1552240021,12), (1551462115,12), (1550684535,12), (1549907282,12), (1549130356,12), (1548353757,12), (1547577483,12), (1546801536,12), (1546025915,12), (1545250619,12), (1544475648,12), (1543701003,12), (1542926683,12),
    (1542152687,12), (1541379016,12), (1540605670,12), (1539832648,12), (1539059949,12), (1538287575,12), (1537515524,12), (1536743796,12), (1535972392,12), (1535201311,12), (1534430552,12), (1533660116,12), (1532890002,12), (1532120210,12), (1531350741,12), (1530581593,12),
    (1529812766,12), (1529044261,12), (1528276078,12), (1527508215,12), (1526740673,12), (1525973451,12), (1525206550,12), (1524439969,12), (1523673707,12), (1522907766,12), (1522142144,12), (1521376841,12), (1520611858,12), (1519847194,12), (1519082848,12), (1518318821,12),
    (1517555112,12), (1516791721,12), (1516028648,12), (1515265893,12), (1514503456,12), (1513741336,12), (1512979533,12), (1512218047,12), (1511456878,12), (1510696025,12), (1509935489,12), (1509175268,12), (1508415364,12), (1507655776,12), (1506896503,12), (1506137546,12),
    (1505378903,12), (1504620576,12), (1503862563,12), (1503104866,12), (1502347482,12), (1501590413,12), (1500833657,12), (1500077216,12), (1499321088,12), (1498565274,12), (1497809772,12), (1497054584,12), (1496299709,12), (1495545146,12), (1494790896,12), (1494036958,12),
    (1493283332,12), (1492530018,12), (1491777015,12), (1491024324,12), (1490271945,12), (1489519876,12), (1488768119,12), (1488016672,12), (1487265535,12), (1486514709,12), (1485764193,12), (1485013987,12), (1484264091,12), (1483514504,12), (1482765227,12), (1482016259,12),
    (1481267599,12), (1480519249,12), (1479771207,12), (1479023474,12), (1478276048,12), (1477528931,12), (1476782122,12), (1476035620,12), (1475289426,12), (1474543539,12), (1473797959,12), (1473052686,12), (1472307720,12), (1471563060,12), (1470818706,12), (1470074659,12),
    (1469330918,12), (1468587482,12), (1467844352,12), (1467101527,12), (1466359007,12), (1465616793,12), (1464874883,12), (1464133278,12), (1463391977,12), (1462650981,12), (1461910289,12), (1461169900,12), (1460429815,12), (1459690034,12), (1458950556,12), (1458211381,12),
    (1457472509,12), (1456733940,12), (1455995673,12), (1455257709,12), (1454520047,12), (1453782687,12), (1453045629,12), (1452308872,12), (1451572417,12), (1450836263,12), (1450100411,12), (1449364859,12), (1448629608,12), (1447894657,12), (1447160007,12), (1446425657,12),
    (1445691607,12), (1444957856,12), (1444224406,12), (1443491254,12), (1442758402,12), (1442025849,12), (1441293595,12), (1440561640,12), (1439829983,12), (1439098625,12), (1438367564,12), (1437636802,12), (1436906337,12), (1436176170,12), (1435446300,12), (1434716728,12),
    (1433987453,12), (1433258474,12), (1432529793,12), (1431801407,12), (1431073318,12), (1430345526,12), (1429618029,12), (1428890828,12), (1428163923,12), (1427437313,12), (1426710998,12), (1425984978,12), (1425259253,12), (1424533823,12), (1423808688,12), (1423083847,12),
    (1422359300,12), (1421635047,12), (1420911088,12), (1420187422,12), (1419464050,12), (1418740971,12), (1418018186,12), (1417295693,12), (1416573493,12), (1415851585,12), (1415129970,12), (1414408647,12), (1413687617,12), (1412966878,12), (1412246430,12), (1411526274,12),
    (1410806410,12), (1410086837,12), (1409367554,12), (1408648563,12), (1407929862,12), (1407211451,12), (1406493331,12), (1405775501,12), (1405057961,12), (1404340710,12), (1403623749,12), (1402907078,12), (1402190696,12), (1401474602,12), (1400758798,12), (1400043282,12),
    (1399328055,12), (1398613116,12), (1397898465,12), (1397184103,12), (1396470028,12), (1395756241,12), (1395042741,12), (1394329528,12), (1393616603,12), (1392903965,12), (1392191613,12), (1391479548,12), (1390767769,12), (1390056277,12), (1389345071,12), (1388634150,12),
    (1387923516,12), (1387213167,12), (1386503103,12), (1385793325,12), (1385083831,12), (1384374623,12), (1383665699,12), (1382957060,12), (1382248705,12), (1381540634,12), (1380832848,12), (1380125345,12), (1379418126,12), (1378711190,12), (1378004538,12), (1377298169,12),
    (1376592083,12), (1375886279,12), (1375180759,12), (1374475521,12), (1373770565,12), (1373065891,12), (1372361499,12), (1371657390,12), (1370953561,12), (1370250015,12), (1369546749,12), (1368843765,12), (1368141062,12), (1367438639,12), (1366736497,12), (1366034636,12),
    (1365333055,12), (1364631754,12), (1363930733,12), (1363229991,12), (1362529530,12), (1361829348,12), (1361129445,12), (1360429821,12), (1359730476,12), (1359031410,12), (1358332623,12), (1357634114,12), (1356935883,12), (1356237931,12), (1355540256,12), (1354842859,12),
    (1354145740,12), (1353448899,12), (1352752334,12), (1352056047,12), (1351360037,12), (1350664303,12), (1349968846,12), (1349273666,12), (1348578762,12), (1347884134,12), (1347189782,12), (1346495706,12), (1345801905,12), (1345108380,12), (1344415131,12), (1343722156,12),
    (1343029457,12), (1342337032,12), (1341644882,12), (1340953006,12), (1340261405,12), (1339570078,12), (1338879025,12), (1338188246,12), (1337497740,12), (1336807508,12), (1336117549,12), (1335427864,12), (1334738452,12), (1334049312,12), (1333360445,12), (1332671851,12),
    (1331983529,12), (1331295479,12), (1330607702,12), (1329920196,12), (1329232962,12), (1328546000,12), (1327859309,12), (1327172889,12), (1326486740,12), (1325800863,12), (1325115256,12), (1324429920,12), (1323744854,12), (1323060058,12), (1322375533,12), (1321691277,12),
    (1321007292,12), (1320323576,12), (1319640129,12), (1318956952,12), (1318274044,12), (1317591406,12), (1316909036,12), (1316226934,12), (1315545101,12), (1314863537,12), (1314182241,12), (1313501213,12), (1312820453,12), (1312139960,12), (1311459735,12), (1310779778,12),
    (1310100088,12), (1309420665,12), (1308741509,12), (1308062619,12), (1307383997,12), (1306705641,12), (1306027551,12), (1305349727,12), (1304672170,12), (1303994878,12), (1303317852,12), (1302641092,12), (1301964597,12), (1301288367,12), (1300612402,12), (1299936702,12),
    (1299261267,12), (1298586097,12), (1297911191,12), (1297236549,12), (1296562172,12), (1295888058,12), (1295214209,12), (1294540623,12), (1293867300,12), (1293194241,12), (1292521445,12), (1291848913,12), (1291176643,12), (1290504636,12), (1289832891,12), (1289161409,12),
    (1288490189,12), (1287819232,12), (1287148536,12), (1286478102,12), (1285807930,12), (1285138020,12), (1284468371,12), (1283798983,12), (1283129856,12), (1282460990,12), (1281792385,12), (1281124040,12), (1280455956,12), (1279788132,12), (1279120568,12), (1278453265,12),
    (1277786221,12), (1277119437,12), (1276452912,12), (1275786647,12), (1275120641,12), (1274454894,12), (1273789407,12), (1273124178,12), (1272459207,12), (1271794495,12), (1271130042,12), (1270465846,12), (1269801909,12), (1269138229,12), (1268474808,12), (1267811644,12),
    (1267148737,12), (1266486087,12), (1265823695,12), (1265161560,12), (1264499682,12), (1263838060,12), (1263176695,12), (1262515586,12), (1261854733,12), (1261194137,12), (1260533796,12), (1259873711,12), (1259213882,12), (1258554309,12), (1257894991,12), (1257235928,12),
    (1256577120,12), (1255918567,12), (1255260268,12), (1254602225,12), (1253944435,12), (1253286900,12), (1252629620,12), (1251972593,12), (1251315820,12), (1250659301,12), (1250003035,12), (1249347023,12), (1248691265,12), (1248035759,12), (1247380506,12), (1246725506,12),
    (1246070759,12), (1245416265,12), (1244762022,12), (1244108033,12), (1243454295,12), (1242800809,12), (1242147575,12), (1241494593,12), (1240841862,12), (1240189382,12), (1239537154,12), (1238885177,12), (1238233451,12), (1237581976,12), (1236930751,12), (1236279777,12),
    (1235629053,12), (1234978580,12), (1234328356,12), (1233678383,12), (1233028659,12), (1232379185,12), (1231729961,12), (1231080986,12), (1230432260,12), (1229783783,12), (1229135555,12), (1228487576,12), (1227839845,12), (1227192363,12), (1226545130,12), (1225898144,12),
    (1225251407,12), (1224604918,12), (1223958676,12), (1223312682,12), (1222666936,12), (1222021437,12), (1221376185,12), (1220731180,12), (1220086422,12), (1219441911,12), (1218797647,12), (1218153629,12), (1217509858,12), (1216866332,12), (1216223053,12), (1215580020,12),
    (1214937233,12), (1214294691,12), (1213652395,12), (1213010344,12), (1212368538,12), (1211726978,12), (1211085662,12), (1210444592,12), (1209803766,12), (1209163184,12), (1208522847,12), (1207882754,12), (1207242906,12), (1206603301,12), (1205963940,12), (1205324823,12),
    (1204685949,12), (1204047319,12), (1203408932,12), (1202770789,12), (1202132888,12), (1201495230,12), (1200857815,12), (1200220643,12), (1199583713,12), (1198947025,12), (1198310579,12), (1197674376,12), (1197038414,12), (1196402694,12), (1195767216,12), (1195131979,12),
    (1194496984,12), (1193862230,12), (1193227717,12), (1192593445,12), (1191959413,12), (1191325623,12), (1190692073,12), (1190058763,12), (1189425693,12), (1188792864,12), (1188160274,12), (1187527925,12), (1186895815,12), (1186263945,12), (1185632314,12), (1185000922,12),
    (1184369770,12), (1183738857,12), (1183108182,12), (1182477746,12), (1181847549,12), (1181217591,12), (1180587871,12), (1179958389,12), (1179329145,12), (1178700139,12), (1178071370,12), (1177442840,12), (1176814547,12), (1176186491,12), (1175558673,12), (1174931092,12),
    (1174303748,12), (1173676640,12), (1173049770,12), (1172423136,12), (1171796738,12), (1171170577,12), (1170544652,12), (1169918963,12), (1169293510,12), (1168668293,12), (1168043311,12), (1167418566,12), (1166794055,12), (1166169780,12), (1165545739,12), (1164921934,12),
    (1164298364,12), (1163675028,12), (1163051927,12), (1162429061,12), (1161806429,12), (1161184031,12), (1160561867,12), (1159939937,12), (1159318241,12), (1158696778,12), (1158075549,12), (1157454554,12), (1156833791,12), (1156213262,12), (1155592966,12), (1154972903,12),
    (1154353073,12), (1153733475,12), (1153114109,12), (1152494976,12), (1151876076,12), (1151257407,12), (1150638971,12), (1150020766,12), (1149402793,12), (1148785051,12), (1148167541,12), (1147550262,12), (1146933215,12), (1146316398,12), (1145699813,12), (1145083458,12),
    (1144467334,12), (1143851440,12), (1143235777,12), (1142620344,12), (1142005142,12), (1141390169,12), (1140775426,12), (1140160913,12), (1139546630,12), (1138932576,12), (1138318752,12), (1137705156,12), (1137091790,12), (1136478653,12), (1135865745,12), (1135253065,12),
    (1134640615,12), (1134028392,12), (1133416398,12), (1132804632,12), (1132193095,12), (1131581785,12), (1130970703,12), (1130359849,12), (1129749222,12), (1129138823,12), (1128528651,12), (1127918707,12), (1127308989,12), (1126699499,12), (1126090235,12), (1125481198,12),
    (1124872388,12), (1124263804,12), (1123655446,12), (1123047314,12), (1122439409,12), (1121831730,12), (1121224276,12), (1120617048,12), (1120010046,12), (1119403269,12), (1118796717,12), (1118190391,12), (1117584289,12), (1116978413,12), (1116372761,12), (1115767335,12),
    (1115162132,12), (1114557154,12), (1113952401,12), (1113347871,12), (1112743566,12), (1112139485,12), (1111535627,12), (1110931993,12), (1110328583,12), (1109725396,12), (1109122433,12), (1108519692,12), (1107917175,12), (1107314881,12), (1106712809,12), (1106110960,12),
    (1105509334,12), (1104907930,12), (1104306749,12), (1103705790,12), (1103105053,12), (1102504537,12), (1101904244,12), (1101304172,12), (1100704322,12), (1100104694,12), (1099505287,12), (1098906101,12), (1098307136,12), (1097708392,12), (1097109869,12), (1096511566,12),
    (1095913485,12), (1095315623,12), (1094717983,12), (1094120562,12), (1093523361,12), (1092926381,12), (1092329620,12), (1091733080,12), (1091136758,12), (1090540657,12), (1089944774,12), (1089349111,12), (1088753668,12), (1088158443,12), (1087563437,12), (1086968650,12),
    (1086374081,12), (1085779731,12), (1085185600,12), (1084591687,12), (1083997992,12), (1083404515,12), (1082811256,12), (1082218215,12), (1081625391,12), (1081032786,12), (1080440397,12), (1079848226,12), (1079256273,12), (1078664536,12), (1078073016,12), (1077481714,12),
    (1076890628,12), (1076299758,12), (1075709105,12), (1075118669,12), (1074528449,12), (1073938445,12), (1073348656,12), (1072759084,12), (1072169728,12), (1071580588,12), (1070991662,12), (1070402953,12), (1069814459,12), (1069226180,12), (1068638116,12), (1068050267,12),
    (1067462633,12), (1066875213,12), (1066288008,12), (1065701018,12), (1065114242,12), (1064527681,12), (1063941333,12), (1063355200,12), (1062769280,12), (1062183575,12), (1061598083,12), (1061012804,12), (1060427739,12), (1059842887,12), (1059258249,12), (1058673824,12),
    (1058089611,12), (1057505612,12), (1056921825,12), (1056338251,12), (1055754889,12), (1055171740,12), (1054588803,12), (1054006079,12), (1053423566,12), (1052841265,12), (1052259176,12), (1051677299,12), (1051095633,12), (1050514179,12), (1049932936,12), (1049351905,12),
    (1048771084,12), (1048190475,12), (1047610077,12), (1047029889,12), (1046449912,12), (1045870145,12), (1045290589,12), (1044711244,12), (1044132108,12), (1043553183,12), (1042974467,12), (1042395962,12), (1041817666,12), (1041239580,12), (1040661703,12), (1040084036,12),
    (1039506578,12), (1038929329,12), (1038352290,12), (1037775459,12), (1037198837,12), (1036622424,12), (1036046219,12), (1035470223,12), (1034894436,12), (1034318856,12), (1033743485,12), (1033168322,12), (1032593367,12), (1032018620,12), (1031444080,12), (1030869748,12),
    (1030295624,12), (1029721706,12), (1029147996,12), (1028574494,12), (1028001198,12), (1027428109,12), (1026855227,12), (1026282552,12), (1025710083,12), (1025137821,12), (1024565765,12), (1023993916,12), (1023422273,12), (1022850835,12), (1022279604,12), (1021708578,12),
    (1021137758,12), (1020567144,12), (1019996735,12), (1019426532,12), (1018856533,12), (1018286740,12), (1017717152,12), (1017147769,12), (1016578591,12), (1016009617,12), (1015440848,12), (1014872284,12), (1014303923,12), (1013735767,12), (1013167816,12), (1012600068,12),
    (1012032524,12), (1011465184,12), (1010898048,12), (1010331115,12), (1009764386,12), (1009197861,12), (1008631538,12), (1008065419,12), (1007499503,12), (1006933789,12), (1006368279,12), (1005802971,12), (1005237866,12), (1004672963,12), (1004108263,12), (1003543765,12),
    (1002979469,12), (1002415376,12), (1001851484,12), (1001287794,12), (1000724306,12), (1000161020,12), (999597935,12), (999035051,12), (998472369,12), (997909888,12), (997347608,12), (996785529,12), (996223651,12), (995661974,12), (995100498,12), (994539222,12),
    (993978146,12), (993417271,12), (992856596,12), (992296121,12), (991735847,12), (991175772,12), (990615897,12), (990056221,12), (989496746,12), (988937469,12), (988378393,12), (987819515,12), (987260837,12), (986702357,12), (986144077,12), (985585995,12),
    (985028113,12), (984470428,12), (983912943,12), (983355656,12), (982798567,12), (982241676,12), (981684984,12), (981128489,12), (980572193,12), (980016094,12), (979460193,12), (978904489,12), (978348983,12), (977793674,12), (977238563,12), (976683649,12),
    (976128931,12), (975574411,12), (975020088,12), (974465961,12), (973912031,12), (973358298,12), (972804761,12), (972251420,12), (971698275,12), (971145327,12), (970592574,12), (970040018,12), (969487657,12), (968935492,12), (968383523,12), (967831749,12),
    (967280171,12), (966728787,12), (966177599,12), (965626606,12), (965075808,12), (964525205,12), (963974797,12), (963424583,12), (962874564,12), (962324739,12), (961775109,12), (961225673,12), (960676431,12), (960127383,12), (959578529,12), (959029869,12),
    (958481403,12), (957933130,12), (957385051,12), (956837165,12), (956289473,12), (955741973,12), (955194667,12), (954647554,12), (954100634,12), (953553907,12), (953007372,12), (952461030,12), (951914880,12), (951368923,12), (950823158,12), (950277586,12),
    (949732205,12), (949187017,12), (948642020,12), (948097215,12), (947552602,12), (947008181,12), (946463951,12), (945919912,12), (945376065,12), (944832409,12), (944288944,12), (943745670,12), (943202587,12), (942659694,12), (942116993,12), (941574481,12),
    (941032161,12), (940490031,12), (939948091,12), (939406341,12), (938864781,12), (938323412,12), (937782232,12), (937241242,12), (936700442,12), (936159831,12), (935619410,12), (935079178,12), (934539135,12), (933999282,12), (933459618,12), (932920142,12),
    (932380856,12), (931841758,12), (931302850,12), (930764129,12), (930225597,12), (929687254,12), (929149099,12), (928611132,12), (928073353,12), (927535762,12), (926998360,12), (926461144,12), (925924117,12), (925387277,12), (924850625,12), (924314160,12),
    (923777883,12), (923241792,12), (922705889,12), (922170173,12), (921634644,12), (921099301,12), (920564145,12), (920029176,12), (919494394,12), (918959798,12), (918425388,12), (917891164,12), (917357127,12), (916823275,12), (916289610,12), (915756130,12),
    (915222837,12), (914689728,12), (914156806,12), (913624069,12), (913091517,12), (912559150,12), (912026969,12), (911494973,12), (910963161,12), (910431535,12), (909900093,12), (909368836,12), (908837764,12), (908306876,12), (907776173,12), (907245653,12),
    (906715319,12), (906185168,12), (905655201,12), (905125418,12), (904595819,12), (904066404,12), (903537172,12), (903008124,12), (902479259,12), (901950578,12), (901422079,12), (900893764,12), (900365633,12), (899837684,12), (899309918,12), (898782334,12),
    (898254934,12), (897727716,12), (897200680,12), (896673827,12), (896147156,12), (895620667,12), (895094361,12), (894568236,12), (894042294,12), (893516533,12), (892990954,12), (892465557,12), (891940341,12), (891415306,12), (890890453,12), (890365782,12),
    (889841291,12), (889316982,12), (888792853,12), (888268905,12), (887745139,12), (887221553,12), (886698147,12), (886174922,12), (885651877,12), (885129013,12), (884606329,12), (884083825,12), (883561501,12), (883039358,12), (882517394,12), (881995609,12),
    (881474005,12), (880952580,12), (880431334,12), (879910268,12), (879389381,12), (878868674,12), (878348145,12), (877827796,12), (877307626,12), (876787634,12), (876267821,12), (875748187,12), (875228731,12), (874709454,12), (874190355,12), (873671435,12),
    (873152693,12), (872634128,12), (872115742,12), (871597534,12), (871079504,12), (870561651,12), (870043976,12), (869526478,12), (869009158,12), (868492016,12), (867975051,12), (867458262,12), (866941651,12), (866425217,12), (865908960,12), (865392880,12),
    (864876977,12), (864361250,12), (863845699,12), (863330326,12), (862815128,12), (862300107,12), (861785262,12), (861270593,12), (860756100,12), (860241783,12), (859727642,12), (859213677,12), (858699887,12), (858186273,12), (857672834,12), (857159571,12),
    (856646483,12), (856133570,12), (855620833,12), (855108270,12), (854595882,12), (854083669,12), (853571631,12), (853059768,12), (852548079,12), (852036565,12), (851525225,12), (851014059,12), (850503068,12), (849992250,12), (849481607,12), (848971138,12),
    (848460842,12), (847950721,12), (847440773,12), (846930998,12), (846421397,12), (845911970,12), (845402716,12), (844893635,12), (844384727,12), (843875993,12), (843367431,12), (842859042,12), (842350826,12), (841842783,12), (841334913,12), (840827214,12),
    (840319689,12), (839812336,12), (839305155,12), (838798146,12), (838291309,12), (837784644,12), (837278152,12), (836771831,12), (836265682,12), (835759704,12), (835253898,12), (834748264,12), (834242801,12), (833737509,12), (833232388,12), (832727439,12),
    (832222661,12), (831718054,12), (831213617,12), (830709351,12), (830205256,12), (829701332,12), (829197578,12), (828693995,12), (828190582,12), (827687339,12), (827184267,12), (826681364,12), (826178632,12), (825676069,12), (825173677,12), (824671454,12),
    (824169401,12), (823667517,12), (823165803,12), (822664258,12), (822162883,12), (821661676,12), (821160639,12), (820659772,12), (820159073,12), (819658542,12), (819158181,12), (818657989,12), (818157965,12), (817658110,12), (817158423,12), (816658904,12),
    (816159554,12), (815660372,12), (815161358,12), (814662513,12), (814163835,12), (813665325,12), (813166983,12), (812668808,12), (812170801,12), (811672962,12), (811175290,12), (810677786,12), (810180449,12), (809683279,12), (809186276,12), (808689440,12),
    (808192771,12), (807696269,12), (807199934,12), (806703766,12), (806207764,12), (805711928,12), (805216259,12), (804720757,12), (804225420,12), (803730250,12), (803235246,12), (802740408,12), (802245736,12), (801751230,12), (801256890,12), (800762715,12),
    (800268706,12), (799774862,12), (799281184,12), (798787671,12), (798294324,12), (797801141,12), (797308124,12), (796815272,12), (796322585,12), (795830062,12), (795337705,12), (794845512,12), (794353484,12), (793861620,12), (793369921,12), (792878386,12),
    (792387015,12), (791895809,12), (791404766,12), (790913888,12), (790423174,12), (789932623,12), (789442236,12), (788952013,12), (788461954,12), (787972058,12), (787482326,12), (786992757,12), (786503351,12), (786014109,12), (785525029,12), (785036113,12),
    (784547360,12), (784058769,12), (783570342,12), (783082077,12), (782593975,12), (782106035,12), (781618258,12), (781130643,12), (780643191,12), (780155901,12), (779668773,12), (779181807,12), (778695003,12), (778208361,12), (777721880,12), (777235562,12),
    (776749405,12), (776263410,12), (775777576,12), (775291904,12), (774806393,12), (774321043,12), (773835855,12), (773350828,12), (772865961,12), (772381256,12), (771896712,12), (771412328,12), (770928105,12), (770444043,12), (769960141,12), (769476400,12),
    (768992819,12), (768509398,12), (768026138,12), (767543038,12), (767060097,12), (766577317,12), (766094697,12), (765612237,12), (765129936,12), (764647795,12), (764165814,12), (763683992,12), (763202329,12), (762720826,12), (762239483,12), (761758298,12),
    (761277273,12), (760796406,12), (760315699,12), (759835150,12), (759354760,12), (758874529,12), (758394457,12), (757914543,12), (757434788,12), (756955191,12), (756475752,12), (755996472,12), (755517350,12), (755038386,12), (754559580,12), (754080932,12),
    (753602442,12), (753124109,12), (752645935,12), (752167917,12), (751690058,12), (751212356,12), (750734811,12), (750257424,12), (749780194,12), (749303121,12), (748826205,12), (748349446,12), (747872844,12), (747396399,12), (746920111,12), (746443979,12),
    (745968005,12), (745492186,12), (745016524,12), (744541019,12), (744065669,12), (743590476,12), (743115440,12), (742640559,12), (742165834,12), (741691265,12), (741216852,12), (740742595,12), (740268494,12), (739794548,12), (739320758,12), (738847123,12),
    (738373643,12), (737900319,12), (737427150,12), (736954136,12), (736481278,12), (736008574,12), (735536025,12), (735063632,12), (734591393,12), (734119308,12), (733647378,12), (733175603,12), (732703983,12), (732232516,12), (731761204,12), (731290047,12),
    (730819043,12), (730348194,12), (729877498,12), (729406957,12), (728936569,12), (728466335,12), (727996255,12), (727526329,12), (727056556,12), (726586936,12), (726117471,12), (725648158,12), (725178999,12), (724709992,12), (724241139,12), (723772439,12),
    (723303892,12), (722835498,12), (722367257,12), (721899168,12), (721431233,12), (720963449,12), (720495818,12), (720028340,12), (719561014,12), (719093841,12), (718626819,12), (718159950,12), (717693233,12), (717226668,12), (716760254,12), (716293993,12),
    (715827883,12), (715361925,12), (714896119,12), (714430464,12), (713964961,12), (713499609,12), (713034409,12), (712569359,12), (712104461,12), (711639714,12), (711175118,12), (710710673,12), (710246379,12), (709782236,12), (709318243,12), (708854402,12),
    (708390710,12), (707927170,12), (707463779,12), (707000539,12), (706537450,12), (706074511,12), (705611721,12), (705149082,12), (704686593,12), (704224254,12), (703762065,12), (703300025,12), (702838135,12), (702376395,12), (701914805,12), (701453364,12),
    (700992072,12), (700530930,12), (700069937,12), (699609093,12), (699148399,12), (698687853,12), (698227456,12), (697767209,12), (697307110,12), (696847160,12), (696387359,12), (695927706,12), (695468202,12), (695008846,12), (694549639,12), (694090580,12),
    (693631670,12), (693172907,12), (692714293,12), (692255827,12), (691797509,12), (691339339,12), (690881316,12), (690423441,12), (689965715,12), (689508135,12), (689050703,12), (688593419,12), (688136282,12), (687679293,12), (687222451,12), (686765755,12),
    (686309208,12), (685852807,12), (685396553,12), (684940446,12), (684484486,12), (684028673,12), (683573006,12), (683117486,12), (682662113,12), (682206886,12), (681751805,12), (681296871,12), (680842083,12), (680387441,12), (679932946,12), (679478597,12),
    (679024393,12), (678570336,12), (678116424,12), (677662658,12), (677209038,12), (676755563,12), (676302234,12), (675849051,12), (675396013,12), (674943120,12), (674490373,12), (674037771,12), (673585314,12), (673133002,12), (672680835,12), (672228814,12),
    (671776937,12), (671325204,12), (670873617,12), (670422174,12), (669970876,12), (669519722,12), (669068713,12), (668617848,12), (668167128,12), (667716552,12), (667266120,12), (666815832,12), (666365688,12), (665915688,12), (665465832,12), (665016120,12),
    (664566551,12), (664117127,12), (663667846,12), (663218708,12), (662769714,12), (662320864,12), (661872156,12), (661423593,12), (660975172,12), (660526894,12), (660078760,12), (659630768,12), (659182920,12), (658735214,12), (658287651,12), (657840231,12),
    (657392954,12), (656945819,12), (656498827,12), (656051977,12), (655605270,12), (655158705,12), (654712282,12), (654266001,12), (653819863,12), (653373866,12), (652928012,12), (652482299,12), (652036729,12), (651591300,12), (651146013,12), (650700867,12),
    (650255863,12), (649811001,12), (649366280,12), (648921701,12), (648477262,12), (648032965,12), (647588810,12), (647144795,12), (646700921,12), (646257189,12), (645813597,12), (645370146,12), (644926836,12), (644483666,12), (644040638,12), (643597749,12),
    (643155002,12), (642712394,12), (642269928,12), (641827601,12), (641385415,12), (640943369,12), (640501463,12), (640059697,12), (639618071,12), (639176584,12), (638735238,12), (638294032,12), (637852965,12), (637412038,12), (636971250,12), (636530602,12),
    (636090094,12), (635649725,12), (635209495,12), (634769404,12), (634329453,12), (633889640,12), (633449967,12), (633010433,12), (632571037,12), (632131781,12), (631692663,12), (631253684,12), (630814843,12), (630376142,12), (629937578,12), (629499154,12),
    (629060867,12), (628622719,12), (628184709,12), (627746838,12), (627309104,12), (626871509,12), (626434051,12), (625996732,12), (625559550,12), (625122506,12), (624685600,12), (624248832,12), (623812201,12), (623375707,12), (622939352,12), (622503133,12),
    (622067052,12), (621631108,12), (621195302,12), (620759633,12), (620324100,12), (619888705,12), (619453447,12), (619018325,12), (618583341,12), (618148493,12), (617713782,12), (617279207,12), (616844769,12), (616410468,12), (615976303,12), (615542274,12),
    (615108382,12), (614674626,12), (614241006,12), (613807523,12), (613374175,12), (612940963,12), (612507888,12), (612074948,12), (611642144,12), (611209475,12), (610776943,12), (610344546,12), (609912284,12), (609480158,12), (609048168,12), (608616312,12),
    (608184593,12), (607753008,12), (607321558,12), (606890244,12), (606459065,12), (606028020,12), (605597111,12), (605166336,12), (604735696,12), (604305191,12), (603874821,12), (603444585,12), (603014483,12), (602584516,12), (602154684,12), (601724986,12),
    (601295422,12), (600865992,12), (600436697,12), (600007535,12), (599578508,12), (599149615,12), (598720855,12), (598292230,12), (597863738,12), (597435380,12), (597007155,12), (596579064,12), (596151107,12), (595723283,12), (595295592,12), (594868035,12),
    (594440611,12), (594013321,12), (593586163,12), (593159139,12), (592732247,12), (592305489,12), (591878863,12), (591452371,12), (591026011,12), (590599784,12), (590173689,12), (589747727,12), (589321898,12), (588896201,12), (588470636,12), (588045204,12),
    (587619904,12), (587194737,12), (586769701,12), (586344798,12), (585920026,12), (585495387,12), (585070879,12), (584646504,12), (584222260,12), (583798148,12), (583374168,12), (582950319,12), (582526601,12), (582103016,12), (581679561,12), (581256238,12),
    (580833047,12), (580409986,12), (579987057,12), (579564259,12), (579141592,12), (578719056,12), (578296651,12), (577874376,12), (577452233,12), (577030220,12), (576608338,12), (576186587,12), (575764966,12), (575343476,12), (574922116,12), (574500887,12),
    (574079788,12), (573658819,12), (573237980,12), (572817272,12), (572396693,12), (571976245,12), (571555927,12), (571135738,12), (570715680,12), (570295751,12), (569875952,12), (569456282,12), (569036742,12), (568617332,12), (568198051,12), (567778900,12),
    (567359878,12), (566940985,12), (566522222,12), (566103587,12), (565685082,12), (565266706,12), (564848459,12), (564430341,12), (564012352,12), (563594492,12), (563176760,12), (562759157,12), (562341683,12), (561924337,12), (561507120,12), (561090031,12),
    (560673071,12), (560256239,12), (559839536,12), (559422960,12), (559006513,12), (558590194,12), (558174003,12), (557757940,12), (557342005,12), (556926198,12), (556510519,12), (556094967,12), (555679543,12), (555264247,12), (554849078,12), (554434037,12),
    (554019123,12), (553604337,12), (553189678,12), (552775147,12), (552360742,12), (551946465,12), (551532315,12), (551118292,12), (550704396,12), (550290627,12), (549876985,12), (549463470,12), (549050081,12), (548636819,12), (548223684,12), (547810675,12),
    (547397793,12), (546985038,12), (546572408,12), (546159905,12), (545747529,12), (545335279,12), (544923155,12), (544511157,12), (544099285,12), (543687539,12), (543275919,12), (542864425,12), (542453057,12), (542041814,12), (541630697,12), (541219706,12),
    (540808841,12), (540398101,12), (539987487,12), (539576998,12), (539166634,12), (538756396,12), (538346283,12), (537936295,12), (537526433,12), (537116695,12), (536707082,12), (536297595,12), (535888232,12), (535478995,12), (535069882,12), (534660893,12),
    (534252030,12), (533843291,12), (533434677,12), (533026187,12), (532617822,12), (532209581,12), (531801464,12), (531393472,12), (530985604,12), (530577860,12), (530170241,12), (529762745,12), (529355373,12), (528948126,12), (528541002,12), (528134002,12),
    (527727126,12), (527320373,12), (526913744,12), (526507239,12), (526100858,12), (525694600,12), (525288465,12), (524882454,12), (524476566,12), (524070801,12), (523665160,12), (523259641,12), (522854246,12), (522448974,12), (522043825,12), (521638799,12),
    (521233896,12), (520829115,12), (520424458,12), (520019923,12), (519615510,12), (519211221,12), (518807053,12), (518403009,12), (517999087,12), (517595287,12), (517191609,12), (516788054,12), (516384621,12), (515981310,12), (515578121,12), (515175055,12),
    (514772110,12), (514369287,12), (513966586,12), (513564007,12), (513161550,12), (512759214,12), (512357000,12), (511954908,12), (511552937,12), (511151088,12), (510749360,12), (510347754,12), (509946269,12), (509544905,12), (509143662,12), (508742541,12),
    (508341540,12), (507940661,12), (507539903,12), (507139265,12), (506738749,12), (506338353,12), (505938079,12), (505537925,12), (505137891,12), (504737978,12), (504338186,12), (503938514,12), (503538963,12), (503139532,12), (502740222,12), (502341032,12),
    (501941962,12), (501543012,12), (501144182,12), (500745473,12), (500346883,12), (499948413,12), (499550064,12), (499151834,12), (498753724,12), (498355734,12), (497957863,12), (497560112,12), (497162481,12), (496764969,12), (496367576,12), (495970304,12),
    (495573150,12), (495176116,12), (494779201,12), (494382405,12), (493985729,12), (493589171,12), (493192733,12), (492796413,12), (492400213,12), (492004131,12), (491608168,12), (491212324,12), (490816599,12), (490420993,12), (490025505,12), (489630135,12),
    (489234884,12), (488839752,12), (488444738,12), (488049842,12), (487655065,12), (487260406,12), (486865865,12), (486471442,12), (486077138,12), (485682951,12), (485288882,12), (484894932,12), (484501099,12), (484107384,12), (483713787,12), (483320307,12),
    (482926945,12), (482533701,12), (482140574,12), (481747565,12), (481354674,12), (480961899,12), (480569242,12), (480176703,12), (479784280,12), (479391975,12), (478999787,12), (478607716,12), (478215762,12), (477823925,12), (477432205,12), (477040602,12),
    (476649116,12), (476257746,12), (475866493,12), (475475357,12), (475084338,12), (474693435,12), (474302648,12), (473911978,12), (473521425,12), (473130987,12), (472740667,12), (472350462,12), (471960373,12), (471570401,12), (471180545,12), (470790805,12),
    (470401181,12), (470011672,12), (469622280,12), (469233003,12), (468843843,12), (468454798,12), (468065868,12), (467677055,12), (467288357,12), (466899774,12), (466511307,12), (466122955,12), (465734719,12), (465346598,12), (464958593,12), (464570702,12),
    (464182927,12), (463795267,12), (463407722,12), (463020291,12), (462632976,12), (462245776,12), (461858691,12), (461471720,12), (461084864,12), (460698123,12), (460311497,12), (459924985,12), (459538588,12), (459152305,12), (458766137,12), (458380083,12),
    (457994143,12), (457608318,12), (457222607,12), (456837010,12), (456451528,12), (456066159,12), (455680905,12), (455295764,12), (454910738,12), (454525825,12), (454141026,12), (453756341,12), (453371770,12), (452987313,12), (452602969,12), (452218738,12),
    (451834621,12), (451450618,12), (451066728,12), (450682952,12), (450299289,12), (449915739,12), (449532302,12), (449148979,12), (448765769,12), (448382672,12), (447999687,12), (447616816,12), (447234058,12), (446851413,12), (446468880,12), (446086461,12),
    (445704154,12), (445321960,12), (444939878,12), (444557909,12), (444176053,12), (443794309,12), (443412677,12), (443031158,12), (442649751,12), (442268457,12), (441887275,12), (441506205,12), (441125247,12), (440744401,12), (440363667,12), (439983045,12),
    (439602536,12), (439222138,12), (438841852,12), (438461677,12), (438081615,12), (437701664,12), (437321825,12), (436942097,12), (436562481,12), (436182977,12), (435803584,12), (435424302,12), (435045132,12), (434666073,12), (434287125,12), (433908289,12),
    (433529563,12), (433150949,12), (432772446,12), (432394054,12), (432015773,12), (431637602,12), (431259543,12), (430881594,12), (430503756,12), (430126029,12), (429748413,12), (429370907,12), (428993512,12), (428616227,12), (428239053,12), (427861989,12),
    (427485036,12), (427108193,12), (426731460,12), (426354837,12), (425978325,12), (425601923,12), (425225631,12), (424849449,12), (424473377,12), (424097414,12), (423721562,12), (423345820,12), (422970187,12), (422594664,12), (422219251,12), (421843948,12),
    (421468754,12), (421093670,12), (420718695,12), (420343829,12), (419969074,12), (419594427,12), (419219890,12), (418845462,12), (418471143,12), (418096934,12), (417722833,12), (417348842,12), (416974960,12), (416601186,12), (416227522,12), (415853966,12),
    (415480520,12), (415107182,12), (414733953,12), (414360833,12), (413987821,12), (413614918,12), (413242123,12), (412869437,12), (412496860,12), (412124390,12), (411752030,12), (411379777,12), (411007633,12), (410635597,12), (410263669,12), (409891850,12),
    (409520138,12), (409148535,12), (408777039,12), (408405651,12), (408034372,12), (407663200,12), (407292136,12), (406921180,12), (406550331,12), (406179590,12), (405808957,12), (405438431,12), (405068013,12), (404697702,12), (404327499,12), (403957403,12),
    (403587415,12), (403217533,12), (402847759,12), (402478093,12), (402108533,12), (401739080,12), (401369735,12), (401000496,12), (400631365,12), (400262340,12), (399893422,12), (399524611,12), (399155907,12), (398787310,12), (398418819,12), (398050435,12),
    (397682158,12), (397313987,12), (396945922,12), (396577964,12), (396210113,12), (395842367,12), (395474728,12), (395107196,12), (394739769,12), (394372449,12), (394005235,12), (393638127,12), (393271125,12), (392904229,12), (392537439,12), (392170755,12),
    (391804176,12), (391437704,12), (391071337,12), (390705076,12), (390338921,12), (389972871,12), (389606927,12), (389241089,12), (388875355,12), (388509728,12), (388144206,12), (387778789,12), (387413477,12), (387048271,12), (386683170,12), (386318174,12),
    (385953283,12), (385588497,12), (385223816,12), (384859241,12), (384494770,12), (384130404,12), (383766143,12), (383401987,12), (383037935,12), (382673989,12), (382310147,12), (381946409,12), (381582776,12), (381219248,12), (380855824,12), (380492505,12),
    (380129290,12), (379766179,12), (379403173,12), (379040271,12), (378677473,12), (378314780,12), (377952190,12), (377589705,12), (377227323,12), (376865046,12), (376502873,12), (376140803,12), (375778837,12), (375416976,12), (375055217,12), (374693563,12),
    (374332013,12), (373970566,12), (373609222,12), (373247982,12), (372886846,12), (372525813,12), (372164884,12), (371804058,12), (371443335,12), (371082715,12), (370722199,12), (370361786,12), (370001476,12), (369641269,12), (369281166,12), (368921165,12),
    (368561267,12), (368201473,12), (367841781,12), (367482192,12), (367122705,12), (366763322,12), (366404041,12), (366044863,12), (365685787,12), (365326814,12), (364967944,12), (364609176,12), (364250511,12), (363891948,12), (363533487,12), (363175129,12),
    (362816873,12), (362458719,12), (362100667,12), (361742717,12), (361384870,12), (361027125,12), (360669481,12), (360311940,12), (359954500,12), (359597163,12), (359239927,12), (358882793,12), (358525761,12), (358168830,12), (357812001,12), (357455274,12),
    (357098648,12), (356742124,12), (356385701,12), (356029380,12), (355673160,12), (355317042,12), (354961025,12), (354605109,12), (354249294,12), (353893580,12), (353537968,12), (353182457,12), (352827047,12), (352471738,12), (352116529,12), (351761422,12),
    (351406416,12), (351051510,12), (350696705,12), (350342001,12), (349987398,12), (349632895,12), (349278493,12), (348924192,12), (348569991,12), (348215891,12), (347861891,12), (347507991,12), (347154192,12), (346800493,12), (346446895,12), (346093396,12),
    (345739998,12), (345386700,12), (345033502,12), (344680405,12), (344327407,12), (343974509,12), (343621711,12), (343269013,12), (342916415,12), (342563917,12), (342211519,12), (341859220,12), (341507021,12), (341154922,12), (340802922,12), (340451021,12),
    (340099221,12), (339747520,12), (339395918,12), (339044415,12), (338693012,12), (338341709,12), (337990504,12), (337639399,12), (337288393,12), (336937486,12), (336586678,12), (336235969,12), (335885359,12), (335534849,12), (335184437,12), (334834124,12),
    (334483910,12), (334133794,12), (333783778,12), (333433860,12), (333084041,12), (332734320,12), (332384698,12), (332035175,12), (331685750,12), (331336424,12), (330987196,12), (330638066,12), (330289035,12), (329940102,12), (329591267,12), (329242531,12),
    (328893893,12), (328545352,12), (328196910,12), (327848566,12), (327500320,12), (327152173,12), (326804122,12), (326456170,12), (326108316,12), (325760560,12), (325412901,12), (325065340,12), (324717876,12), (324370511,12), (324023243,12), (323676072,12),
    (323328999,12), (322982024,12), (322635146,12), (322288365,12), (321941682,12), (321595096,12), (321248607,12), (320902215,12), (320555921,12), (320209724,12), (319863624,12), (319517621,12), (319171715,12), (318825906,12), (318480194,12), (318134579,12),
    (317789061,12), (317443639,12), (317098314,12), (316753087,12), (316407955,12), (316062921,12), (315717983,12), (315373142,12), (315028397,12), (314683748,12), (314339197,12), (313994741,12), (313650382,12), (313306120,12), (312961953,12), (312617883,12),
    (312273909,12), (311930031,12), (311586250,12), (311242564,12), (310898975,12), (310555481,12), (310212084,12), (309868782,12), (309525577,12), (309182467,12), (308839453,12), (308496535,12), (308153712,12), (307810985,12), (307468354,12), (307125819,12),
    (306783379,12), (306441034,12), (306098785,12), (305756632,12), (305414574,12), (305072611,12), (304730744,12), (304388972,12), (304047295,12), (303705714,12), (303364227,12), (303022836,12), (302681540,12), (302340339,12), (301999233,12), (301658221,12),
    (301317305,12), (300976484,12), (300635758,12), (300295126,12), (299954589,12), (299614147,12), (299273800,12), (298933547,12), (298593389,12), (298253325,12), (297913356,12), (297573482,12), (297233702,12), (296894016,12), (296554425,12), (296214928,12),
    (295875525,12), (295536217,12), (295197003,12), (294857883,12), (294518857,12), (294179926,12), (293841088,12), (293502345,12), (293163695,12), (292825139,12), (292486678,12), (292148310,12), (291810036,12), (291471856,12), (291133769,12), (290795777,12),
    (290457878,12), (290120072,12), (289782360,12), (289444742,12), (289107217,12), (288769786,12), (288432448,12), (288095204,12), (287758053,12), (287420995,12), (287084031,12), (286747160,12), (286410382,12), (286073697,12), (285737106,12), (285400607,12),
    (285064202,12), (284727889,12), (284391670,12), (284055543,12), (283719510,12), (283383569,12), (283047721,12), (282711966,12), (282376303,12), (282040734,12), (281705257,12), (281369872,12), (281034581,12), (280699381,12), (280364275,12), (280029261,12),
    (279694339,12), (279359509,12), (279024772,12), (278690128,12), (278355575,12), (278021115,12), (277686747,12), (277352472,12), (277018288,12), (276684197,12), (276350197,12), (276016290,12), (275682474,12), (275348751,12), (275015119,12), (274681580,12),
    (274348132,12), (274014776,12), (273681511,12), (273348339,12), (273015258,12), (272682269,12), (272349371,12), (272016565,12), (271683850,12), (271351227,12), (271018696,12), (270686256,12), (270353907,12), (270021649,12), (269689483,12), (269357408,12),
    (269025425,12), (268693532,12), (268361731,12), (268030021,12), (267698401,12), (267366873,12), (267035436,12), (266704090,12), (266372835,12), (266041671,12), (265710597,12), (265379615,12), (265048723,12), (264717922,12), (264387211,12), (264056592,12),
    (263726063,12), (263395624,12), (263065276,12), (262735019,12), (262404852,12), (262074775,12), (261744789,12), (261414893,12), (261085088,12), (260755373,12), (260425748,12), (260096214,12), (259766769,12), (259437415,12), (259108151,12), (258778977,12),
    (258449892,12), (258120898,12), (257791994,12), (257463180,12), (257134456,12), (256805821,12), (256477277,12), (256148822,12), (255820457,12), (255492182,12), (255163996,12), (254835900,12), (254507893,12), (254179976,12), (253852149,12), (253524411,12),
    (253196762,12), (252869203,12), (252541734,12), (252214353,12), (251887062,12), (251559861,12), (251232748,12), (250905725,12), (250578790,12), (250251945,12), (249925189,12), (249598522,12), (249271944,12), (248945455,12), (248619055,12), (248292744,12),
    (247966522,12), (247640388,12), (247314344,12), (246988388,12), (246662521,12), (246336742,12), (246011052,12), (245685451,12), (245359939,12), (245034514,12), (244709179,12), (244383932,12), (244058773,12), (243733703,12), (243408721,12), (243083827,12),
    (242759022,12), (242434304,12), (242109676,12), (241785135,12), (241460682,12), (241136318,12), (240812041,12), (240487853,12), (240163753,12), (239839740,12), (239515816,12), (239191979,12), (238868230,12), (238544570,12), (238220996,12), (237897511,12),
    (237574113,12), (237250803,12), (236927581,12), (236604446,12), (236281399,12), (235958440,12), (235635567,12), (235312783,12), (234990085,12), (234667476,12), (234344953,12), (234022518,12), (233700170,12), (233377909,12), (233055736,12), (232733650,12),
    (232411651,12), (232089739,12), (231767914,12), (231446176,12), (231124525,12), (230802961,12), (230481484,12), (230160094,12), (229838791,12), (229517575,12), (229196445,12), (228875402,12), (228554446,12), (228233577,12), (227912794,12), (227592098,12),
    (227271488,12), (226950965,12), (226630529,12), (226310178,12), (225989915,12), (225669738,12), (225349647,12), (225029642,12), (224709724,12), (224389892,12), (224070147,12), (223750487,12), (223430914,12), (223111427,12), (222792025,12), (222472710,12),
    (222153481,12), (221834338,12), (221515281,12), (221196310,12), (220877425,12), (220558625,12), (220239912,12), (219921284,12), (219602742,12), (219284285,12), (218965915,12), (218647629,12), (218329430,12), (218011316,12), (217693288,12), (217375345,12),
    (217057488,12), (216739716,12), (216422029,12), (216104428,12), (215786912,12), (215469481,12), (215152136,12), (214834876,12), (214517701,12), (214200611,12), (213883607,12), (213566687,12), (213249853,12), (212933103,12), (212616439,12), (212299859,12),
    (211983365,12), (211666955,12), (211350630,12), (211034390,12), (210718235,12), (210402165,12), (210086179,12), (209770278,12), (209454461,12), (209138730,12), (208823082,12), (208507520,12), (208192041,12), (207876648,12), (207561338,12), (207246113,12),
    (206930973,12), (206615917,12), (206300945,12), (205986057,12), (205671254,12), (205356535,12), (205041900,12), (204727349,12), (204412883,12), (204098500,12), (203784201,12), (203469987,12), (203155856,12), (202841809,12), (202527847,12), (202213968,12),
    (201900173,12), (201586461,12), (201272834,12), (200959290,12), (200645830,12), (200332453,12), (200019161,12), (199705951,12), (199392826,12), (199079784,12), (198766825,12), (198453950,12), (198141158,12), (197828450,12), (197515825,12), (197203284,12),
    (196890825,12), (196578450,12), (196266159,12), (195953950,12), (195641825,12), (195329782,12), (195017823,12), (194705947,12), (194394154,12), (194082444,12), (193770817,12), (193459273,12), (193147811,12), (192836433,12), (192525137,12), (192213925,12),
    (191902795,12), (191591747,12), (191280783,12), (190969901,12), (190659102,12), (190348385,12), (190037751,12), (189727199,12), (189416730,12), (189106344,12), (188796040,12), (188485818,12), (188175679,12), (187865622,12), (187555647,12), (187245755,12),
    (186935944,12), (186626216,12), (186316571,12), (186007007,12), (185697525,12), (185388126,12), (185078809,12), (184769573,12), (184460420,12), (184151348,12), (183842359,12), (183533451,12), (183224625,12), (182915881,12), (182607219,12), (182298639,12),
    (181990140,12), (181681723,12), (181373388,12), (181065134,12), (180756962,12), (180448871,12), (180140862,12), (179832935,12), (179525089,12), (179217324,12), (178909641,12), (178602039,12), (178294518,12), (177987079,12), (177679721,12), (177372444,12),
    (177065248,12), (176758134,12), (176451101,12), (176144149,12), (175837278,12), (175530488,12), (175223778,12), (174917150,12), (174610603,12), (174304137,12), (173997752,12), (173691447,12), (173385224,12), (173079081,12), (172773019,12), (172467038,12),
    (172161137,12), (171855317,12), (171549577,12), (171243919,12), (170938340,12), (170632843,12), (170327426,12), (170022089,12), (169716833,12), (169411657,12), (169106561,12), (168801546,12), (168496611,12), (168191757,12), (167886982,12), (167582288,12),
    (167277674,12), (166973140,12), (166668687,12), (166364313,12), (166060020,12), (165755806,12), (165451673,12), (165147619,12), (164843645,12), (164539752,12), (164235938,12), (163932204,12), (163628550,12), (163324975,12), (163021480,12), (162718065,12),
    (162414730,12), (162111475,12), (161808298,12), (161505202,12), (161202185,12), (160899248,12), (160596390,12), (160293611,12), (159990912,12), (159688293,12), (159385753,12), (159083292,12), (158780910,12), (158478608,12), (158176385,12), (157874241,12),
    (157572176,12), (157270190,12), (156968284,12), (156666457,12), (156364708,12), (156063039,12), (155761449,12), (155459937,12), (155158505,12), (154857151,12), (154555877,12), (154254681,12), (153953564,12), (153652526,12), (153351566,12), (153050685,12),
    (152749883,12), (152449160,12), (152148515,12), (151847949,12), (151547461,12), (151247052,12), (150946722,12), (150646469,12), (150346296,12), (150046200,12), (149746183,12), (149446245,12), (149146384,12), (148846602,12), (148546899,12), (148247273,12),
    (147947726,12), (147648257,12), (147348865,12), (147049553,12), (146750318,12), (146451161,12), (146152082,12), (145853081,12), (145554158,12), (145255313,12), (144956546,12), (144657857,12), (144359245,12), (144060712,12), (143762256,12), (143463877,12),
    (143165577,12), (142867354,12), (142569209,12), (142271142,12), (141973152,12), (141675239,12), (141377404,12), (141079647,12), (140781967,12), (140484365,12), (140186839,12), (139889392,12), (139592021,12), (139294728,12), (138997512,12), (138700374,12),
    (138403313,12), (138106328,12), (137809421,12), (137512592,12), (137215839,12), (136919163,12), (136622564,12), (136326043,12), (136029598,12), (135733230,12), (135436940,12), (135140726,12), (134844589,12), (134548528,12), (134252545,12), (133956638,12),
    (133660808,12), (133365055,12), (133069379,12), (132773779,12), (132478256,12), (132182809,12), (131887439,12), (131592145,12), (131296928,12), (131001788,12), (130706723,12), (130411736,12), (130116824,12), (129821989,12), (129527231,12), (129232548,12),
    (128937942,12), (128643412,12), (128348959,12), (128054581,12), (127760280,12), (127466054,12), (127171905,12), (126877832,12), (126583835,12), (126289914,12), (125996069,12), (125702300,12), (125408606,12), (125114989,12), (124821447,12), (124527982,12),
    (124234592,12), (123941278,12), (123648039,12), (123354876,12), (123061789,12), (122768778,12), (122475842,12), (122182982,12), (121890197,12), (121597488,12), (121304854,12), (121012296,12), (120719814,12), (120427406,12), (120135074,12), (119842818,12),
    (119550637,12), (119258531,12), (118966500,12), (118674544,12), (118382664,12), (118090859,12), (117799129,12), (117507474,12), (117215895,12), (116924390,12), (116632961,12), (116341606,12), (116050326,12), (115759122,12), (115467992,12), (115176937,12),
    (114885957,12), (114595052,12), (114304221,12), (114013466,12), (113722785,12), (113432179,12), (113141647,12), (112851191,12), (112560808,12), (112270501,12), (111980268,12), (111690109,12), (111400025,12), (111110016,12), (110820081,12), (110530220,12),
    (110240434,12), (109950722,12), (109661085,12), (109371522,12), (109082033,12), (108792618,12), (108503278,12), (108214012,12), (107924820,12), (107635702,12), (107346658,12), (107057688,12), (106768793,12), (106479971,12), (106191224,12), (105902550,12),
    (105613950,12), (105325425,12), (105036973,12), (104748595,12), (104460291,12), (104172060,12), (103883904,12), (103595821,12), (103307812,12), (103019876,12), (102732014,12), (102444226,12), (102156512,12), (101868871,12), (101581303,12), (101293809,12),
    (101006389,12), (100719042,12), (100431768,12), (100144568,12), (99857441,12), (99570388,12), (99283408,12), (98996501,12), (98709668,12), (98422907,12), (98136220,12), (97849606,12), (97563066,12), (97276598,12), (96990204,12), (96703882,12),
    (96417634,12), (96131458,12), (95845356,12), (95559326,12), (95273370,12), (94987486,12), (94701676,12), (94415938,12), (94130273,12), (93844680,12), (93559161,12), (93273714,12), (92988340,12), (92703038,12), (92417810,12), (92132654,12),
    (91847570,12), (91562559,12), (91277621,12), (90992755,12), (90707961,12), (90423240,12), (90138592,12), (89854016,12), (89569512,12), (89285080,12), (89000721,12), (88716434,12), (88432220,12), (88148078,12), (87864007,12), (87580010,12),
    (87296084,12), (87012230,12), (86728449,12), (86444739,12), (86161102,12), (85877536,12), (85594043,12), (85310621,12), (85027272,12), (84743994,12), (84460788,12), (84177655,12), (83894593,12), (83611602,12), (83328684,12), (83045837,12),
    (82763062,12), (82480359,12), (82197727,12), (81915167,12), (81632678,12), (81350262,12), (81067916,12), (80785642,12), (80503440,12), (80221309,12), (79939250,12), (79657262,12), (79375345,12), (79093500,12), (78811726,12), (78530024,12),
    (78248393,12), (77966833,12), (77685344,12), (77403926,12), (77122580,12), (76841304,12), (76560100,12), (76278967,12), (75997905,12), (75716914,12), (75435994,12), (75155145,12), (74874367,12), (74593660,12), (74313024,12), (74032459,12),
    (73751964,12), (73471541,12), (73191188,12), (72910906,12), (72630694,12), (72350554,12), (72070484,12), (71790485,12), (71510556,12), (71230698,12), (70950910,12), (70671194,12), (70391547,12), (70111971,12), (69832466,12), (69553031,12),
    (69273667,12), (68994372,12), (68715149,12), (68435995,12), (68156912,12), (67877899,12), (67598957,12), (67320085,12), (67041283,12), (66762551,12), (66483889,12), (66205297,12), (65926776,12), (65648324,12), (65369943,12), (65091632,12),
    (64813390,12), (64535219,12), (64257117,12), (63979086,12), (63701124,12), (63423233,12), (63145411,12), (62867658,12), (62589976,12), (62312364,12), (62034821,12), (61757348,12), (61479944,12), (61202610,12), (60925346,12), (60648152,12),
    (60371027,12), (60093971,12), (59816985,12), (59540069,12), (59263222,12), (58986445,12), (58709737,12), (58433098,12), (58156529,12), (57880029,12), (57603598,12), (57327237,12), (57050945,12), (56774722,12), (56498568,12), (56222484,12),
    (55946468,12), (55670522,12), (55394645,12), (55118837,12), (54843098,12), (54567428,12), (54291827,12), (54016295,12), (53740833,12), (53465439,12), (53190113,12), (52914857,12), (52639670,12), (52364551,12), (52089501,12), (51814520,12),
    (51539608,12), (51264765,12), (50989990,12), (50715283,12), (50440646,12), (50166077,12), (49891577,12), (49617145,12), (49342782,12), (49068487,12), (48794261,12), (48520103,12), (48246014,12), (47971993,12), (47698040,12), (47424156,12),
    (47150340,12), (46876593,12), (46602913,12), (46329302,12), (46055760,12), (45782285,12), (45508879,12), (45235540,12), (44962270,12), (44689068,12), (44415934,12), (44142869,12), (43869871,12), (43596941,12), (43324079,12), (43051285,12),
    (42778559,12), (42505901,12), (42233311,12), (41960789,12), (41688334,12), (41415947,12), (41143628,12), (40871377,12), (40599194,12), (40327078,12), (40055030,12), (39783050,12), (39511137,12), (39239292,12), (38967514,12), (38695804,12),
    (38424161,12), (38152586,12), (37881079,12), (37609638,12), (37338266,12), (37066960,12), (36795722,12), (36524552,12), (36253448,12), (35982412,12), (35711444,12), (35440542,12), (35169708,12), (34898941,12), (34628241,12), (34357608,12),
    (34087043,12), (33816544,12), (33546113,12), (33275748,12), (33005451,12), (32735220,12), (32465057,12), (32194960,12), (31924931,12), (31654968,12), (31385072,12), (31115243,12), (30845481,12), (30575786,12), (30306157,12), (30036596,12),
    (29767101,12), (29497672,12), (29228310,12), (28959015,12), (28689787,12), (28420625,12), (28151530,12), (27882501,12), (27613539,12), (27344643,12), (27075814,12), (26807051,12), (26538355,12), (26269725,12), (26001162,12), (25732664,12),
    (25464233,12), (25195869,12), (24927571,12), (24659339,12), (24391173,12), (24123073,12), (23855040,12), (23587073,12), (23319171,12), (23051336,12), (22783567,12), (22515865,12), (22248228,12), (21980657,12), (21713152,12), (21445713,12),
    (21178340,12), (20911033,12), (20643792,12), (20376617,12), (20109507,12), (19842464,12), (19575486,12), (19308574,12), (19041727,12), (18774947,12), (18508232,12), (18241583,12), (17974999,12), (17708481,12), (17442029,12), (17175642,12),
    (16909321,12), (16643065,12), (16376875,12), (16110750,12), (15844690,12), (15578697,12), (15312768,12), (15046905,12), (14781107,12), (14515375,12), (14249708,12), (13984106,12), (13718569,12), (13453098,12), (13187692,12), (12922351,12),
    (12657075,12), (12391864,12), (12126719,12), (11861638,12), (11596623,12), (11331673,12), (11066787,12), (10801967,12), (10537212,12), (10272521,12), (10007896,12), (9743335,12), (9478840,12), (9214409,12), (8950043,12), (8685741,12),
    (8421505,12), (8157333,12), (7893226,12), (7629184,12), (7365207,12), (7101294,12), (6837445,12), (6573662,12), (6309943,12), (6046288,12), (5782698,12), (5519173,12), (5255712,12), (4992315,12), (4728983,12), (4465716,12),
    (4202513,12), (3939374,12), (3676299,12), (3413289,12), (3150343,12), (2887462,12), (2624644,12), (2361891,12), (2099203,12), (1836578,12), (1574017,12), (1311521,12), (1049089,12), (786721,12), (524417,12), (262177,12),
    (2147483649,13), (2146959424,13), (2146435328,13), (2145911360,13), (2145387520,13), (2144863808,13), (2144340223,13), (2143816766,13), (2143293437,13), (2142770235,13), (2142247161,13), (2141724214,13), (2141201395,13), (2140678703,13), (2140156139,13), (2139633702,13),
    (2139111393,13), (2138589210,13), (2138067155,13), (2137545227,13), (2137023426,13), (2136501752,13), (2135980206,13), (2135458786,13), (2134937493,13), (2134416327,13), (2133895288,13), (2133374375,13), (2132853590,13), (2132332931,13), (2131812398,13), (2131291993,13),
    (2130771713,13), (2130251561,13), (2129731535,13), (2129211635,13), (2128691862,13), (2128172215,13), (2127652694,13), (2127133299,13), (2126614031,13), (2126094889,13), (2125575873,13), (2125056983,13), (2124538219,13), (2124019580,13), (2123501068,13), (2122982682,13),
    (2122464422,13), (2121946287,13), (2121428278,13), (2120910395,13), (2120392637,13), (2119875005,13), (2119357498,13), (2118840117,13), (2118322862,13), (2117805732,13), (2117288727,13), (2116771847,13), (2116255093,13), (2115738464,13), (2115221961,13), (2114705582,13),
    (2114189328,13), (2113673200,13), (2113157196,13), (2112641318,13), (2112125564,13), (2111609935,13), (2111094432,13), (2110579052,13), (2110063798,13), (2109548668,13), (2109033663,13), (2108518783,13), (2108004027,13), (2107489395,13), (2106974888,13), (2106460505,13),
    (2105946247,13), (2105432113,13), (2104918104,13), (2104404218,13), (2103890457,13), (2103376820,13), (2102863307,13), (2102349918,13), (2101836653,13), (2101323512,13), (2100810495,13), (2100297602,13), (2099784833,13), (2099272187,13), (2098759665,13), (2098247267,13),
    (2097734993,13), (2097222842,13), (2096710814,13), (2096198911,13), (2095687130,13), (2095175473,13), (2094663940,13), (2094152530,13), (2093641243,13), (2093130079,13), (2092619039,13), (2092108121,13), (2091597327,13), (2091086656,13), (2090576108,13), (2090065683,13),
    (2089555381,13), (2089045201,13), (2088535145,13), (2088025211,13), (2087515400,13), (2087005712,13), (2086496147,13), (2085986704,13), (2085477383,13), (2084968186,13), (2084459110,13), (2083950158,13), (2083441327,13), (2082932619,13), (2082424033,13), (2081915570,13),
    (2081407229,13), (2080899009,13), (2080390913,13), (2079882938,13), (2079375085,13), (2078867354,13), (2078359745,13), (2077852258,13), (2077344893,13), (2076837650,13), (2076330529,13), (2075823529,13), (2075316651,13), (2074809895,13), (2074303260,13), (2073796747,13),
    (2073290355,13), (2072784085,13), (2072277937,13), (2071771909,13), (2071266003,13), (2070760219,13), (2070254555,13), (2069749013,13), (2069243592,13), (2068738292,13), (2068233114,13), (2067728056,13), (2067223119,13), (2066718303,13), (2066213609,13), (2065709035,13),
    (2065204582,13), (2064700249,13), (2064196038,13), (2063691947,13), (2063187976,13), (2062684127,13), (2062180398,13), (2061676789,13), (2061173301,13), (2060669933,13), (2060166686,13), (2059663559,13), (2059160553,13), (2058657666,13), (2058154900,13), (2057652254,13),
    (2057149728,13), (2056647323,13), (2056145037,13), (2055642871,13), (2055140826,13), (2054638900,13), (2054137094,13), (2053635408,13), (2053133842,13), (2052632395,13), (2052131068,13), (2051629861,13), (2051128774,13), (2050627806,13), (2050126957,13), (2049626228,13),
    (2049125619,13), (2048625129,13), (2048124758,13), (2047624507,13), (2047124375,13), (2046624362,13), (2046124468,13), (2045624693,13), (2045125038,13), (2044625502,13), (2044126084,13), (2043626786,13), (2043127607,13), (2042628546,13), (2042129604,13), (2041630781,13),
    (2041132077,13), (2040633492,13), (2040135025,13), (2039636677,13), (2039138448,13), (2038640337,13), (2038142345,13), (2037644471,13), (2037146715,13), (2036649078,13), (2036151559,13), (2035654159,13), (2035156877,13), (2034659713,13), (2034162667,13), (2033665739,13),
    (2033168930,13), (2032672238,13), (2032175665,13), (2031679209,13), (2031182871,13), (2030686652,13), (2030190550,13), (2029694566,13), (2029198699,13), (2028702951,13), (2028207320,13), (2027711806,13), (2027216411,13), (2026721132,13), (2026225972,13), (2025730928,13),
    (2025236003,13), (2024741194,13), (2024246503,13), (2023751929,13), (2023257473,13), (2022763133,13), (2022268911,13), (2021774806,13), (2021280818,13), (2020786947,13), (2020293193,13), (2019799556,13), (2019306036,13), (2018812633,13), (2018319347,13), (2017826177,13),
    (2017333124,13), (2016840188,13), (2016347369,13), (2015854666,13), (2015362080,13), (2014869610,13), (2014377257,13), (2013885021,13), (2013392900,13), (2012900897,13), (2012409009,13), (2011917238,13), (2011425583,13), (2010934044,13), (2010442622,13), (2009951315,13),
    (2009460125,13), (2008969051,13), (2008478092,13), (2007987250,13), (2007496524,13), (2007005913,13), (2006515418,13), (2006025040,13), (2005534777,13), (2005044629,13), (2004554598,13), (2004064682,13), (2003574881,13), (2003085196,13), (2002595627,13), (2002106173,13),
    (2001616835,13), (2001127612,13), (2000638504,13), (2000149512,13), (1999660635,13), (1999171873,13), (1998683226,13), (1998194695,13), (1997706278,13), (1997217977,13), (1996729791,13), (1996241719,13), (1995753763,13), (1995265921,13), (1994778195,13), (1994290583,13),
    (1993803086,13), (1993315704,13), (1992828436,13), (1992341284,13), (1991854245,13), (1991367322,13), (1990880513,13), (1990393818,13), (1989907238,13), (1989420772,13), (1988934421,13), (1988448184,13), (1987962061,13), (1987476053,13), (1986990158,13), (1986504378,13),
    (1986018713,13), (1985533161,13), (1985047723,13), (1984562399,13), (1984077190,13), (1983592094,13), (1983107112,13), (1982622244,13), (1982137490,13), (1981652849,13), (1981168323,13), (1980683910,13), (1980199610,13), (1979715425,13), (1979231352,13), (1978747394,13),
    (1978263549,13), (1977779817,13), (1977296199,13), (1976812694,13), (1976329302,13), (1975846024,13), (1975362859,13), (1974879808,13), (1974396869,13), (1973914044,13), (1973431331,13), (1972948732,13), (1972466246,13), (1971983873,13), (1971501612,13), (1971019465,13),
    (1970537430,13), (1970055509,13), (1969573700,13), (1969092003,13), (1968610420,13), (1968128949,13), (1967647591,13), (1967166345,13), (1966685212,13), (1966204192,13), (1965723284,13), (1965242488,13), (1964761805,13), (1964281234,13), (1963800775,13), (1963320429,13),
    (1962840195,13), (1962360073,13), (1961880063,13), (1961400165,13), (1960920380,13), (1960440706,13), (1959961145,13), (1959481695,13), (1959002357,13), (1958523131,13), (1958044017,13), (1957565015,13), (1957086125,13), (1956607346,13), (1956128679,13), (1955650124,13),
    (1955171680,13), (1954693348,13), (1954215127,13), (1953737018,13), (1953259020,13), (1952781134,13), (1952303359,13), (1951825695,13), (1951348143,13), (1950870702,13), (1950393372,13), (1949916153,13), (1949439046,13), (1948962049,13), (1948485164,13), (1948008389,13),
    (1947531726,13), (1947055173,13), (1946578732,13), (1946102401,13), (1945626181,13), (1945150072,13), (1944674074,13), (1944198186,13), (1943722409,13), (1943246743,13), (1942771187,13), (1942295742,13), (1941820407,13), (1941345183,13), (1940870070,13), (1940395066,13),
    (1939920173,13), (1939445391,13), (1938970718,13), (1938496156,13), (1938021704,13), (1937547362,13), (1937073131,13), (1936599009,13), (1936124998,13), (1935651096,13), (1935177305,13), (1934703624,13), (1934230052,13), (1933756590,13), (1933283238,13), (1932809996,13),
    (1932336864,13), (1931863841,13), (1931390928,13), (1930918125,13), (1930445431,13), (1929972847,13), (1929500372,13), (1929028007,13), (1928555751,13), (1928083605,13), (1927611568,13), (1927139640,13), (1926667822,13), (1926196113,13), (1925724513,13), (1925253022,13),
    (1924781641,13), (1924310368,13), (1923839205,13), (1923368150,13), (1922897205,13), (1922426369,13), (1921955641,13), (1921485022,13), (1921014513,13), (1920544112,13), (1920073819,13), (1919603636,13), (1919133561,13), (1918663595,13), (1918193737,13), (1917723988,13),
    (1917254348,13), (1916784816,13), (1916315393,13), (1915846078,13), (1915376871,13), (1914907773,13), (1914438783,13), (1913969901,13), (1913501127,13), (1913032462,13), (1912563905,13), (1912095456,13), (1911627115,13), (1911158882,13), (1910690757,13), (1910222740,13),
    (1909754831,13), (1909287030,13), (1908819337,13), (1908351752,13), (1907884274,13), (1907416904,13), (1906949642,13), (1906482488,13), (1906015441,13), (1905548502,13), (1905081670,13), (1904614946,13), (1904148330,13), (1903681820,13), (1903215419,13), (1902749124,13),
    (1902282937,13), (1901816858,13), (1901350885,13), (1900885020,13), (1900419262,13), (1899953611,13), (1899488067,13), (1899022631,13), (1898557301,13), (1898092078,13), (1897626963,13), (1897161954,13), (1896697052,13), (1896232257,13), (1895767569,13), (1895302988,13),
    (1894838513,13), (1894374146,13), (1893909884,13), (1893445730,13), (1892981682,13), (1892517741,13), (1892053906,13), (1891590177,13), (1891126556,13), (1890663040,13), (1890199631,13), (1889736328,13), (1889273132,13), (1888810042,13), (1888347058,13), (1887884180,13),
    (1887421409,13), (1886958743,13), (1886496184,13), (1886033731,13), (1885571383,13), (1885109142,13), (1884647007,13), (1884184977,13), (1883723054,13), (1883261236,13), (1882799524,13), (1882337918,13), (1881876418,13), (1881415023,13), (1880953734,13), (1880492550,13),
    (1880031473,13), (1879570500,13), (1879109633,13), (1878648872,13), (1878188216,13), (1877727666,13), (1877267221,13), (1876806881,13), (1876346646,13), (1875886517,13), (1875426493,13), (1874966574,13), (1874506760,13), (1874047052,13), (1873587448,13), (1873127950,13),
    (1872668556,13), (1872209268,13), (1871750084,13), (1871291006,13), (1870832032,13), (1870373163,13), (1869914399,13), (1869455739,13), (1868997185,13), (1868538735,13), (1868080389,13), (1867622148,13), (1867164012,13), (1866705980,13), (1866248053,13), (1865790231,13),
    (1865332512,13), (1864874898,13), (1864417389,13), (1863959984,13), (1863502683,13), (1863045486,13), (1862588394,13), (1862131405,13), (1861674521,13), (1861217741,13), (1860761065,13), (1860304493,13), (1859848025,13), (1859391662,13), (1858935402,13), (1858479245,13),
    (1858023193,13), (1857567245,13), (1857111400,13), (1856655659,13), (1856200022,13), (1855744489,13), (1855289059,13), (1854833733,13), (1854378510,13), (1853923391,13), (1853468375,13), (1853013463,13), (1852558655,13), (1852103949,13), (1851649347,13), (1851194849,13),
    (1850740454,13), (1850286161,13), (1849831973,13), (1849377887,13), (1848923905,13), (1848470025,13), (1848016249,13), (1847562576,13), (1847109006,13), (1846655538,13), (1846202174,13), (1845748913,13), (1845295754,13), (1844842699,13), (1844389746,13), (1843936896,13),
    (1843484148,13), (1843031504,13), (1842578962,13), (1842126522,13), (1841674186,13), (1841221952,13), (1840769820,13), (1840317791,13), (1839865864,13), (1839414040,13), (1838962318,13), (1838510698,13), (1838059181,13), (1837607766,13), (1837156453,13), (1836705243,13),
    (1836254134,13), (1835803128,13), (1835352224,13), (1834901422,13), (1834450722,13), (1834000124,13), (1833549628,13), (1833099234,13), (1832648942,13), (1832198751,13), (1831748663,13), (1831298676,13), (1830848791,13), (1830399008,13), (1829949327,13), (1829499747,13),
    (1829050269,13), (1828600892,13), (1828151617,13), (1827702443,13), (1827253371,13), (1826804400,13), (1826355531,13), (1825906763,13), (1825458097,13), (1825009532,13), (1824561068,13), (1824112705,13), (1823664444,13), (1823216284,13), (1822768224,13), (1822320266,13),
    (1821872409,13), (1821424654,13), (1820976999,13), (1820529445,13), (1820081992,13), (1819634640,13), (1819187388,13), (1818740238,13), (1818293188,13), (1817846240,13), (1817399392,13), (1816952644,13), (1816505997,13), (1816059451,13), (1815613006,13), (1815166661,13),
    (1814720417,13), (1814274273,13), (1813828229,13), (1813382286,13), (1812936444,13), (1812490701,13), (1812045059,13), (1811599518,13), (1811154076,13), (1810708735,13), (1810263494,13), (1809818353,13), (1809373313,13), (1808928372,13), (1808483531,13), (1808038791,13),
    (1807594150,13), (1807149610,13), (1806705169,13), (1806260828,13), (1805816587,13), (1805372446,13), (1804928405,13), (1804484463,13), (1804040621,13), (1803596879,13), (1803153236,13), (1802709694,13), (1802266250,13), (1801822906,13), (1801379662,13), (1800936517,13),
    (1800493472,13), (1800050526,13), (1799607679,13), (1799164932,13), (1798722284,13), (1798279736,13), (1797837286,13), (1797394936,13), (1796952685,13), (1796510534,13), (1796068481,13), (1795626527,13), (1795184673,13), (1794742917,13), (1794301261,13), (1793859703,13),
    (1793418244,13), (1792976884,13), (1792535623,13), (1792094461,13), (1791653398,13), (1791212433,13), (1790771567,13), (1790330800,13), (1789890131,13), (1789449561,13), (1789009090,13), (1788568717,13), (1788128443,13), (1787688267,13), (1787248190,13), (1786808211,13),
    (1786368330,13), (1785928548,13), (1785488864,13), (1785049278,13), (1784609791,13), (1784170402,13), (1783731111,13), (1783291918,13), (1782852824,13), (1782413827,13), (1781974928,13), (1781536128,13), (1781097425,13), (1780658821,13), (1780220314,13), (1779781905,13),
    (1779343595,13), (1778905381,13), (1778467266,13), (1778029249,13), (1777591329,13), (1777153507,13), (1776715782,13), (1776278156,13), (1775840626,13), (1775403195,13), (1774965861,13), (1774528624,13), (1774091485,13), (1773654443,13), (1773217499,13), (1772780652,13),
    (1772343903,13), (1771907250,13), (1771470695,13), (1771034237,13), (1770597877,13), (1770161613,13), (1769725447,13), (1769289378,13), (1768853406,13), (1768417531,13), (1767981753,13), (1767546072,13), (1767110488,13), (1766675001,13), (1766239610,13), (1765804317,13),
    (1765369120,13), (1764934021,13), (1764499017,13), (1764064111,13), (1763629301,13), (1763194588,13), (1762759972,13), (1762325452,13), (1761891029,13), (1761456702,13), (1761022472,13), (1760588338,13), (1760154301,13), (1759720360,13), (1759286516,13), (1758852767,13),
    (1758419115,13), (1757985560,13), (1757552100,13), (1757118737,13), (1756685470,13), (1756252299,13), (1755819225,13), (1755386246,13), (1754953363,13), (1754520577,13), (1754087886,13), (1753655291,13), (1753222793,13), (1752790390,13), (1752358083,13), (1751925871,13),
    (1751493756,13), (1751061736,13), (1750629812,13), (1750197984,13), (1749766252,13), (1749334615,13), (1748903073,13), (1748471628,13), (1748040277,13), (1747609023,13), (1747177863,13), (1746746800,13), (1746315831,13), (1745884958,13), (1745454180,13), (1745023498,13),
    (1744592911,13), (1744162419,13), (1743732023,13), (1743301721,13), (1742871515,13), (1742441404,13), (1742011388,13), (1741581467,13), (1741151641,13), (1740721910,13), (1740292274,13), (1739862733,13), (1739433287,13), (1739003935,13), (1738574679,13), (1738145517,13),
    (1737716451,13), (1737287479,13), (1736858601,13), (1736429819,13), (1736001131,13), (1735572537,13), (1735144038,13), (1734715634,13), (1734287324,13), (1733859109,13), (1733430988,13), (1733002962,13), (1732575030,13), (1732147193,13), (1731719449,13), (1731291801,13),
    (1730864246,13), (1730436786,13), (1730009419,13), (1729582147,13), (1729154970,13), (1728727886,13), (1728300896,13), (1727874001,13), (1727447199,13), (1727020492,13), (1726593878,13), (1726167359,13), (1725740933,13), (1725314601,13), (1724888363,13), (1724462219,13),
    (1724036169,13), (1723610212,13), (1723184349,13), (1722758580,13), (1722332904,13), (1721907322,13), (1721481834,13), (1721056439,13), (1720631138,13), (1720205930,13), (1719780816,13), (1719355795,13), (1718930868,13), (1718506034,13), (1718081293,13), (1717656646,13),
    (1717232092,13), (1716807631,13), (1716383263,13), (1715958989,13), (1715534808,13), (1715110719,13), (1714686724,13), (1714262823,13), (1713839014,13), (1713415298,13), (1712991675,13), (1712568145,13), (1712144708,13), (1711721364,13), (1711298113,13), (1710874954,13),
    (1710451889,13), (1710028916,13), (1709606036,13), (1709183248,13), (1708760553,13), (1708337951,13), (1707915442,13), (1707493025,13), (1707070701,13), (1706648469,13), (1706226329,13), (1705804283,13), (1705382328,13), (1704960466,13), (1704538696,13), (1704117019,13),
    (1703695434,13), (1703273941,13), (1702852541,13), (1702431233,13), (1702010016,13), (1701588893,13), (1701167861,13), (1700746921,13), (1700326074,13), (1699905318,13), (1699484654,13), (1699064083,13), (1698643603,13), (1698223215,13), (1697802920,13), (1697382716,13),
    (1696962603,13), (1696542583,13), (1696122655,13), (1695702818,13), (1695283073,13), (1694863419,13), (1694443857,13), (1694024387,13), (1693605008,13), (1693185721,13), (1692766526,13), (1692347422,13), (1691928409,13), (1691509488,13), (1691090659,13), (1690671920,13),
    (1690253273,13), (1689834718,13), (1689416253,13), (1688997880,13), (1688579598,13), (1688161407,13), (1687743308,13), (1687325300,13), (1686907382,13), (1686489556,13), (1686071821,13), (1685654177,13), (1685236624,13), (1684819161,13), (1684401790,13), (1683984510,13),
    (1683567320,13), (1683150222,13), (1682733214,13), (1682316297,13), (1681899471,13), (1681482735,13), (1681066090,13), (1680649536,13), (1680233072,13), (1679816699,13), (1679400417,13), (1678984225,13), (1678568124,13), (1678152113,13), (1677736193,13), (1677320363,13),
    (1676904623,13), (1676488974,13), (1676073415,13), (1675657946,13), (1675242568,13), (1674827280,13), (1674412082,13), (1673996975,13), (1673581957,13), (1673167030,13), (1672752193,13), (1672337446,13), (1671922789,13), (1671508221,13), (1671093744,13), (1670679357,13),
    (1670265060,13), (1669850853,13), (1669436735,13), (1669022708,13), (1668608770,13), (1668194922,13), (1667781164,13), (1667367495,13), (1666953916,13), (1666540427,13), (1666127028,13), (1665713718,13), (1665300497,13), (1664887367,13), (1664474325,13), (1664061373,13),
    (1663648511,13), (1663235738,13), (1662823055,13), (1662410461,13), (1661997956,13), (1661585540,13), (1661173214,13), (1660760977,13), (1660348830,13), (1659936771,13), (1659524802,13), (1659112922,13), (1658701131,13), (1658289429,13), (1657877816,13), (1657466292,13),
    (1657054857,13), (1656643511,13), (1656232254,13), (1655821086,13), (1655410007,13), (1654999016,13), (1654588115,13), (1654177302,13), (1653766578,13), (1653355943,13), (1652945396,13), (1652534939,13), (1652124569,13), (1651714289,13), (1651304097,13), (1650893994,13),
    (1650483979,13), (1650074052,13), (1649664214,13), (1649254465,13), (1648844804,13), (1648435231,13), (1648025747,13), (1647616351,13), (1647207044,13), (1646797824,13), (1646388693,13), (1645979650,13), (1645570696,13), (1645161829,13), (1644753051,13), (1644344361,13),
    (1643935759,13), (1643527245,13), (1643118818,13), (1642710480,13), (1642302230,13), (1641894068,13), (1641485994,13), (1641078007,13), (1640670109,13), (1640262298,13), (1639854575,13), (1639446940,13), (1639039393,13), (1638631933,13), (1638224561,13), (1637817277,13),
    (1637410080,13), (1637002971,13), (1636595949,13), (1636189015,13), (1635782169,13), (1635375409,13), (1634968738,13), (1634562154,13), (1634155657,13), (1633749248,13), (1633342926,13), (1632936691,13), (1632530543,13), (1632124483,13), (1631718510,13), (1631312625,13),
    (1630906826,13), (1630501115,13), (1630095490,13), (1629689953,13), (1629284503,13), (1628879140,13), (1628473864,13), (1628068675,13), (1627663572,13), (1627258557,13), (1626853629,13), (1626448787,13), (1626044033,13), (1625639365,13), (1625234784,13), (1624830289,13),
    (1624425882,13), (1624021561,13), (1623617327,13), (1623213179,13), (1622809118,13), (1622405144,13), (1622001256,13), (1621597455,13), (1621193740,13), (1620790112,13), (1620386570,13), (1619983114,13), (1619579745,13), (1619176463,13), (1618773266,13), (1618370156,13),
    (1617967133,13), (1617564195,13), (1617161344,13), (1616758579,13), (1616355900,13), (1615953307,13), (1615550801,13), (1615148380,13), (1614746045,13), (1614343797,13), (1613941635,13), (1613539558,13), (1613137568,13), (1612735663,13), (1612333844,13), (1611932112,13),
    (1611530465,13), (1611128903,13), (1610727428,13), (1610326038,13), (1609924734,13), (1609523516,13), (1609122384,13), (1608721337,13), (1608320376,13), (1607919500,13), (1607518710,13), (1607118005,13), (1606717386,13), (1606316853,13), (1605916405,13), (1605516042,13),
    (1605115765,13), (1604715573,13), (1604315466,13), (1603915445,13), (1603515509,13), (1603115658,13), (1602715893,13), (1602316213,13), (1601916618,13), (1601517108,13), (1601117683,13), (1600718343,13), (1600319089,13), (1599919919,13), (1599520835,13), (1599121835,13),
    (1598722921,13), (1598324091,13), (1597925346,13), (1597526687,13), (1597128112,13), (1596729622,13), (1596331216,13), (1595932896,13), (1595534660,13), (1595136509,13), (1594738442,13), (1594340461,13), (1593942564,13), (1593544751,13), (1593147023,13), (1592749380,13),
    (1592351821,13), (1591954347,13), (1591556957,13), (1591159652,13), (1590762431,13), (1590365294,13), (1589968242,13), (1589571274,13), (1589174391,13), (1588777592,13), (1588380877,13), (1587984246,13), (1587587700,13), (1587191237,13), (1586794859,13), (1586398565,13),
    (1586002355,13), (1585606229,13), (1585210188,13), (1584814230,13), (1584418356,13), (1584022566,13), (1583626860,13), (1583231238,13), (1582835700,13), (1582440246,13), (1582044876,13), (1581649589,13), (1581254387,13), (1580859267,13), (1580464232,13), (1580069281,13),
    (1579674413,13), (1579279629,13), (1578884928,13), (1578490311,13), (1578095777,13), (1577701327,13), (1577306961,13), (1576912678,13), (1576518479,13), (1576124363,13), (1575730330,13), (1575336381,13), (1574942515,13), (1574548733,13), (1574155033,13), (1573761417,13),
    (1573367885,13), (1572974435,13), (1572581069,13), (1572187786,13), (1571794586,13), (1571401469,13), (1571008435,13), (1570615485,13), (1570222617,13), (1569829833,13), (1569437131,13), (1569044512,13), (1568651977,13), (1568259524,13), (1567867154,13), (1567474867,13),
    (1567082663,13), (1566690541,13), (1566298502,13), (1565906547,13), (1565514673,13), (1565122883,13), (1564731175,13), (1564339550,13), (1563948007,13), (1563556548,13), (1563165170,13), (1562773875,13), (1562382663,13), (1561991533,13), (1561600486,13), (1561209521,13),
    (1560818638,13), (1560427838,13), (1560037121,13), (1559646485,13), (1559255932,13), (1558865461,13), (1558475073,13), (1558084766,13), (1557694542,13), (1557304400,13), (1556914340,13), (1556524363,13), (1556134467,13), (1555744654,13), (1555354922,13), (1554965273,13),
    (1554575705,13), (1554186220,13), (1553796816,13), (1553407495,13), (1553018255,13), (1552629097,13), (1552240021,13), (1551851027,13), (1551462115,13), (1551073284,13), (1550684535,13), (1550295868,13), (1549907282,13), (1549518779,13), (1549130356,13), (1548742016,13),
    (1548353757,13), (1547965579,13), (1547577483,13), (1547189469,13), (1546801536,13), (1546413685,13), (1546025915,13), (1545638226,13), (1545250619,13), (1544863093,13), (1544475648,13), (1544088285,13), (1543701003,13), (1543313802,13), (1542926683,13), (1542539644,13),
    (1542152687,13), (1541765811,13), (1541379016,13), (1540992303,13), (1540605670,13), (1540219118,13), (1539832648,13), (1539446258,13), (1539059949,13), (1538673722,13), (1538287575,13), (1537901509,13), (1537515524,13), (1537129620,13), (1536743796,13), (1536358054,13),
    (1535972392,13), (1535586811,13), (1535201311,13), (1534815891,13), (1534430552,13), (1534045293,13), (1533660116,13), (1533275019,13), (1532890002,13), (1532505066,13), (1532120210,13), (1531735435,13), (1531350741,13), (1530966127,13), (1530581593,13), (1530197139,13),
    (1529812766,13), (1529428474,13), (1529044261,13), (1528660129,13), (1528276078,13), (1527892106,13), (1527508215,13), (1527124404,13), (1526740673,13), (1526357022,13), (1525973451,13), (1525589960,13), (1525206550,13), (1524823219,13), (1524439969,13), (1524056798,13),
    (1523673707,13), (1523290697,13), (1522907766,13), (1522524915,13), (1522142144,13), (1521759453,13), (1521376841,13), (1520994310,13), (1520611858,13), (1520229486,13), (1519847194,13), (1519464981,13), (1519082848,13), (1518700794,13), (1518318821,13), (1517936926,13),
    (1517555112,13), (1517173377,13), (1516791721,13), (1516410145,13), (1516028648,13), (1515647231,13), (1515265893,13), (1514884635,13), (1514503456,13), (1514122356,13), (1513741336,13), (1513360395,13), (1512979533,13), (1512598750,13), (1512218047,13), (1511837423,13),
    (1511456878,13), (1511076412,13), (1510696025,13), (1510315717,13), (1509935489,13), (1509555339,13), (1509175268,13), (1508795277,13), (1508415364,13), (1508035531,13), (1507655776,13), (1507276100,13), (1506896503,13), (1506516985,13), (1506137546,13), (1505758185,13),
    (1505378903,13), (1504999700,13), (1504620576,13), (1504241530,13), (1503862563,13), (1503483675,13), (1503104866,13), (1502726135,13), (1502347482,13), (1501968908,13), (1501590413,13), (1501211996,13), (1500833657,13), (1500455397,13), (1500077216,13), (1499699113,13),
    (1499321088,13), (1498943142,13), (1498565274,13), (1498187484,13), (1497809772,13), (1497432139,13), (1497054584,13), (1496677107,13), (1496299709,13), (1495922388,13), (1495545146,13), (1495167982,13), (1494790896,13), (1494413888,13), (1494036958,13), (1493660106,13),
    (1493283332,13), (1492906636,13), (1492530018,13), (1492153478,13), (1491777015,13), (1491400631,13), (1491024324,13), (1490648096,13), (1490271945,13), (1489895872,13), (1489519876,13), (1489143959,13), (1488768119,13), (1488392356,13), (1488016672,13), (1487641065,13),
    (1487265535,13), (1486890083,13), (1486514709,13), (1486139412,13), (1485764193,13), (1485389051,13), (1485013987,13), (1484639000,13), (1484264091,13), (1483889259,13), (1483514504,13), (1483139827,13), (1482765227,13), (1482390704,13), (1482016259,13), (1481641890,13),
    (1481267599,13), (1480893385,13), (1480519249,13), (1480145189,13), (1479771207,13), (1479397302,13), (1479023474,13), (1478649722,13), (1478276048,13), (1477902451,13), (1477528931,13), (1477155488,13), (1476782122,13), (1476408833,13), (1476035620,13), (1475662485,13),
    (1475289426,13), (1474916444,13), (1474543539,13), (1474170711,13), (1473797959,13), (1473425284,13), (1473052686,13), (1472680165,13), (1472307720,13), (1471935351,13), (1471563060,13), (1471190845,13), (1470818706,13), (1470446644,13), (1470074659,13), (1469702750,13),
    (1469330918,13), (1468959162,13), (1468587482,13), (1468215879,13), (1467844352,13), (1467472901,13), (1467101527,13), (1466730229,13), (1466359007,13), (1465987862,13), (1465616793,13), (1465245800,13), (1464874883,13), (1464504043,13), (1464133278,13), (1463762590,13),
    (1463391977,13), (1463021441,13), (1462650981,13), (1462280597,13), (1461910289,13), (1461540056,13), (1461169900,13), (1460799820,13), (1460429815,13), (1460059887,13), (1459690034,13), (1459320257,13), (1458950556,13), (1458580931,13), (1458211381,13), (1457841907,13),
    (1457472509,13), (1457103187,13), (1456733940,13), (1456364769,13), (1455995673,13), (1455626653,13), (1455257709,13), (1454888840,13), (1454520047,13), (1454151329,13), (1453782687,13), (1453414120,13), (1453045629,13), (1452677213,13), (1452308872,13), (1451940607,13),
    (1451572417,13), (1451204303,13), (1450836263,13), (1450468299,13), (1450100411,13), (1449732597,13), (1449364859,13), (1448997196,13), (1448629608,13), (1448262095,13), (1447894657,13), (1447527294,13), (1447160007,13), (1446792794,13), (1446425657,13), (1446058594,13),
    (1445691607,13), (1445324694,13), (1444957856,13), (1444591094,13), (1444224406,13), (1443857793,13), (1443491254,13), (1443124791,13), (1442758402,13), (1442392089,13), (1442025849,13), (1441659685,13), (1441293595,13), (1440927580,13), (1440561640,13), (1440195774,13),
    (1439829983,13), (1439464267,13), (1439098625,13), (1438733057,13), (1438367564,13), (1438002146,13), (1437636802,13), (1437271532,13), (1436906337,13), (1436541216,13), (1436176170,13), (1435811198,13), (1435446300,13), (1435081477,13), (1434716728,13), (1434352053,13),
    (1433987453,13), (1433622926,13), (1433258474,13), (1432894096,13), (1432529793,13), (1432165563,13), (1431801407,13), (1431437326,13), (1431073318,13), (1430709385,13), (1430345526,13), (1429981740,13), (1429618029,13), (1429254391,13), (1428890828,13), (1428527338,13),
    (1428163923,13), (1427800581,13), (1427437313,13), (1427074118,13), (1426710998,13), (1426347951,13), (1425984978,13), (1425622079,13), (1425259253,13), (1424896502,13), (1424533823,13), (1424171219,13), (1423808688,13), (1423446231,13), (1423083847,13), (1422721537,13),
    (1422359300,13), (1421997137,13), (1421635047,13), (1421273031,13), (1420911088,13), (1420549218,13), (1420187422,13), (1419825699,13), (1419464050,13), (1419102474,13), (1418740971,13), (1418379542,13), (1418018186,13), (1417656903,13), (1417295693,13), (1416934556,13),
    (1416573493,13), (1416212502,13), (1415851585,13), (1415490741,13), (1415129970,13), (1414769272,13), (1414408647,13), (1414048095,13), (1413687617,13), (1413327211,13), (1412966878,13), (1412606617,13), (1412246430,13), (1411886316,13), (1411526274,13), (1411166306,13),
    (1410806410,13), (1410446587,13), (1410086837,13), (1409727159,13), (1409367554,13), (1409008022,13), (1408648563,13), (1408289176,13), (1407929862,13), (1407570620,13), (1407211451,13), (1406852355,13), (1406493331,13), (1406134380,13), (1405775501,13), (1405416695,13),
    (1405057961,13), (1404699299,13), (1404340710,13), (1403982194,13), (1403623749,13), (1403265378,13), (1402907078,13), (1402548851,13), (1402190696,13), (1401832613,13), (1401474602,13), (1401116664,13), (1400758798,13), (1400401004,13), (1400043282,13), (1399685633,13),
    (1399328055,13), (1398970550,13), (1398613116,13), (1398255755,13), (1397898465,13), (1397541248,13), (1397184103,13), (1396827029,13), (1396470028,13), (1396113098,13), (1395756241,13), (1395399455,13), (1395042741,13), (1394686099,13), (1394329528,13), (1393973030,13),
    (1393616603,13), (1393260248,13), (1392903965,13), (1392547753,13), (1392191613,13), (1391835545,13), (1391479548,13), (1391123623,13), (1390767769,13), (1390411987,13), (1390056277,13), (1389700638,13), (1389345071,13), (1388989575,13), (1388634150,13), (1388278797,13),
    (1387923516,13), (1387568306,13), (1387213167,13), (1386858099,13), (1386503103,13), (1386148178,13), (1385793325,13), (1385438542,13), (1385083831,13), (1384729191,13), (1384374623,13), (1384020125,13), (1383665699,13), (1383311344,13), (1382957060,13), (1382602847,13),
    (1382248705,13), (1381894634,13), (1381540634,13), (1381186705,13), (1380832848,13), (1380479061,13), (1380125345,13), (1379771700,13), (1379418126,13), (1379064622,13), (1378711190,13), (1378357828,13), (1378004538,13), (1377651318,13), (1377298169,13), (1376945090,13),
    (1376592083,13), (1376239146,13), (1375886279,13), (1375533484,13), (1375180759,13), (1374828104,13), (1374475521,13), (1374123007,13), (1373770565,13), (1373418193,13), (1373065891,13), (1372713660,13), (1372361499,13), (1372009409,13), (1371657390,13), (1371305440,13),
    (1370953561,13), (1370601753,13), (1370250015,13), (1369898347,13), (1369546749,13), (1369195222,13), (1368843765,13), (1368492378,13), (1368141062,13), (1367789815,13), (1367438639,13), (1367087533,13), (1366736497,13), (1366385531,13), (1366034636,13), (1365683810,13),
    (1365333055,13), (1364982369,13), (1364631754,13), (1364281208,13), (1363930733,13), (1363580327,13), (1363229991,13), (1362879726,13), (1362529530,13), (1362179404,13), (1361829348,13), (1361479361,13), (1361129445,13), (1360779598,13), (1360429821,13), (1360080114,13),
    (1359730476,13), (1359380908,13), (1359031410,13), (1358681982,13), (1358332623,13), (1357983334,13), (1357634114,13), (1357284964,13), (1356935883,13), (1356586872,13), (1356237931,13), (1355889059,13), (1355540256,13), (1355191523,13), (1354842859,13), (1354494265,13),
    (1354145740,13), (1353797285,13), (1353448899,13), (1353100582,13), (1352752334,13), (1352404156,13), (1352056047,13), (1351708007,13), (1351360037,13), (1351012135,13), (1350664303,13), (1350316540,13), (1349968846,13), (1349621222,13), (1349273666,13), (1348926179,13),
    (1348578762,13), (1348231413,13), (1347884134,13), (1347536924,13), (1347189782,13), (1346842710,13), (1346495706,13), (1346148771,13), (1345801905,13), (1345455108,13), (1345108380,13), (1344761721,13), (1344415131,13), (1344068609,13), (1343722156,13), (1343375772,13),
    (1343029457,13), (1342683210,13), (1342337032,13), (1341990922,13), (1341644882,13), (1341298910,13), (1340953006,13), (1340607171,13), (1340261405,13), (1339915707,13), (1339570078,13), (1339224517,13), (1338879025,13), (1338533601,13), (1338188246,13), (1337842959,13),
    (1337497740,13), (1337152590,13), (1336807508,13), (1336462495,13), (1336117549,13), (1335772673,13), (1335427864,13), (1335083124,13), (1334738452,13), (1334393848,13), (1334049312,13), (1333704845,13), (1333360445,13), (1333016114,13), (1332671851,13), (1332327656,13),
    (1331983529,13), (1331639470,13), (1331295479,13), (1330951557,13), (1330607702,13), (1330263915,13), (1329920196,13), (1329576545,13), (1329232962,13), (1328889447,13), (1328546000,13), (1328202620,13), (1327859309,13), (1327516065,13), (1327172889,13), (1326829781,13),
    (1326486740,13), (1326143768,13), (1325800863,13), (1325458025,13), (1325115256,13), (1324772554,13), (1324429920,13), (1324087353,13), (1323744854,13), (1323402422,13), (1323060058,13), (1322717762,13), (1322375533,13), (1322033371,13), (1321691277,13), (1321349251,13),
    (1321007292,13), (1320665400,13), (1320323576,13), (1319981819,13), (1319640129,13), (1319298507,13), (1318956952,13), (1318615465,13), (1318274044,13), (1317932691,13), (1317591406,13), (1317250187,13), (1316909036,13), (1316567951,13), (1316226934,13), (1315885984,13),
    (1315545101,13), (1315204286,13), (1314863537,13), (1314522855,13), (1314182241,13), (1313841693,13), (1313501213,13), (1313160799,13), (1312820453,13), (1312480173,13), (1312139960,13), (1311799814,13), (1311459735,13), (1311119723,13), (1310779778,13), (1310439899,13),
    (1310100088,13), (1309760343,13), (1309420665,13), (1309081053,13), (1308741509,13), (1308402031,13), (1308062619,13), (1307723275,13), (1307383997,13), (1307044785,13), (1306705641,13), (1306366562,13), (1306027551,13), (1305688606,13), (1305349727,13), (1305010915,13),
    (1304672170,13), (1304333491,13), (1303994878,13), (1303656332,13), (1303317852,13), (1302979439,13), (1302641092,13), (1302302811,13), (1301964597,13), (1301626448,13), (1301288367,13), (1300950351,13), (1300612402,13), (1300274519,13), (1299936702,13), (1299598952,13),
    (1299261267,13), (1298923649,13), (1298586097,13), (1298248611,13), (1297911191,13), (1297573837,13), (1297236549,13), (1296899327,13), (1296562172,13), (1296225082,13), (1295888058,13), (1295551100,13), (1295214209,13), (1294877383,13), (1294540623,13), (1294203928,13),
    (1293867300,13), (1293530738,13), (1293194241,13), (1292857810,13), (1292521445,13), (1292185146,13), (1291848913,13), (1291512745,13), (1291176643,13), (1290840606,13), (1290504636,13), (1290168731,13), (1289832891,13), (1289497117,13), (1289161409,13), (1288825766,13),
    (1288490189,13), (1288154678,13), (1287819232,13), (1287483851,13), (1287148536,13), (1286813287,13), (1286478102,13), (1286142984,13), (1285807930,13), (1285472942,13), (1285138020,13), (1284803162,13), (1284468371,13), (1284133644,13), (1283798983,13), (1283464387,13),
    (1283129856,13), (1282795390,13), (1282460990,13), (1282126655,13), (1281792385,13), (1281458180,13), (1281124040,13), (1280789965,13), (1280455956,13), (1280122011,13), (1279788132,13), (1279454318,13), (1279120568,13), (1278786884,13), (1278453265,13), (1278119710,13),
    (1277786221,13), (1277452796,13), (1277119437,13), (1276786142,13), (1276452912,13), (1276119747,13), (1275786647,13), (1275453612,13), (1275120641,13), (1274787736,13), (1274454894,13), (1274122118,13), (1273789407,13), (1273456760,13), (1273124178,13), (1272791660,13),
    (1272459207,13), (1272126819,13), (1271794495,13), (1271462236,13), (1271130042,13), (1270797912,13), (1270465846,13), (1270133845,13), (1269801909,13), (1269470037,13), (1269138229,13), (1268806486,13), (1268474808,13), (1268143193,13), (1267811644,13), (1267480158,13),
    (1267148737,13), (1266817380,13), (1266486087,13), (1266154859,13), (1265823695,13), (1265492595,13), (1265161560,13), (1264830589,13), (1264499682,13), (1264168839,13), (1263838060,13), (1263507345,13), (1263176695,13), (1262846108,13), (1262515586,13), (1262185127,13),
    (1261854733,13), (1261524403,13), (1261194137,13), (1260863934,13), (1260533796,13), (1260203722,13), (1259873711,13), (1259543765,13), (1259213882,13), (1258884064,13), (1258554309,13), (1258224618,13), (1257894991,13), (1257565427,13), (1257235928,13), (1256906492,13),
    (1256577120,13), (1256247811,13), (1255918567,13), (1255589386,13), (1255260268,13), (1254931215,13), (1254602225,13), (1254273298,13), (1253944435,13), (1253615636,13), (1253286900,13), (1252958228,13), (1252629620,13), (1252301075,13), (1251972593,13), (1251644175,13),
    (1251315820,13), (1250987529,13), (1250659301,13), (1250331137,13), (1250003035,13), (1249674998,13), (1249347023,13), (1249019112,13), (1248691265,13), (1248363480,13), (1248035759,13), (1247708101,13), (1247380506,13), (1247052975,13), (1246725506,13), (1246398101,13),
    (1246070759,13), (1245743480,13), (1245416265,13), (1245089112,13), (1244762022,13), (1244434996,13), (1244108033,13), (1243781132,13), (1243454295,13), (1243127520,13), (1242800809,13), (1242474160,13), (1242147575,13), (1241821052,13), (1241494593,13), (1241168196,13),
    (1240841862,13), (1240515591,13), (1240189382,13), (1239863237,13), (1239537154,13), (1239211134,13), (1238885177,13), (1238559283,13), (1238233451,13), (1237907682,13), (1237581976,13), (1237256332,13), (1236930751,13), (1236605233,13), (1236279777,13), (1235954384,13),
    (1235629053,13), (1235303785,13), (1234978580,13), (1234653437,13), (1234328356,13), (1234003338,13), (1233678383,13), (1233353490,13), (1233028659,13), (1232703891,13), (1232379185,13), (1232054542,13), (1231729961,13), (1231405442,13), (1231080986,13), (1230756591,13),
    (1230432260,13), (1230107990,13), (1229783783,13), (1229459638,13), (1229135555,13), (1228811534,13), (1228487576,13), (1228163679,13), (1227839845,13), (1227516073,13), (1227192363,13), (1226868715,13), (1226545130,13), (1226221606,13), (1225898144,13), (1225574745,13),
    (1225251407,13), (1224928131,13), (1224604918,13), (1224281766,13), (1223958676,13), (1223635648,13), (1223312682,13), (1222989778,13), (1222666936,13), (1222344155,13), (1222021437,13), (1221698780,13), (1221376185,13), (1221053652,13), (1220731180,13), (1220408770,13),
    (1220086422,13), (1219764136,13), (1219441911,13), (1219119748,13), (1218797647,13), (1218475607,13), (1218153629,13), (1217831713,13), (1217509858,13), (1217188064,13), (1216866332,13), (1216544662,13), (1216223053,13), (1215901506,13), (1215580020,13), (1215258596,13),
    (1214937233,13), (1214615931,13), (1214294691,13), (1213973512,13), (1213652395,13), (1213331339,13), (1213010344,13), (1212689410,13), (1212368538,13), (1212047727,13), (1211726978,13), (1211406289,13), (1211085662,13), (1210765096,13), (1210444592,13), (1210124148,13),
    (1209803766,13), (1209483444,13), (1209163184,13), (1208842985,13), (1208522847,13), (1208202770,13), (1207882754,13), (1207562799,13), (1207242906,13), (1206923073,13), (1206603301,13), (1206283590,13), (1205963940,13), (1205644351,13), (1205324823,13), (1205005356,13),
    (1204685949,13), (1204366604,13), (1204047319,13), (1203728095,13), (1203408932,13), (1203089830,13), (1202770789,13), (1202451808,13), (1202132888,13), (1201814029,13), (1201495230,13), (1201176492,13), (1200857815,13), (1200539199,13), (1200220643,13), (1199902147,13),
    (1199583713,13), (1199265338,13), (1198947025,13), (1198628772,13), (1198310579,13), (1197992447,13), (1197674376,13), (1197356365,13), (1197038414,13), (1196720524,13), (1196402694,13), (1196084925,13), (1195767216,13), (1195449568,13), (1195131979,13), (1194814452,13),
    (1194496984,13), (1194179577,13), (1193862230,13), (1193544943,13), (1193227717,13), (1192910551,13), (1192593445,13), (1192276399,13), (1191959413,13), (1191642488,13), (1191325623,13), (1191008818,13), (1190692073,13), (1190375388,13), (1190058763,13), (1189742198,13),
    (1189425693,13), (1189109249,13), (1188792864,13), (1188476539,13), (1188160274,13), (1187844070,13), (1187527925,13), (1187211840,13), (1186895815,13), (1186579850,13), (1186263945,13), (1185948099,13), (1185632314,13), (1185316588,13), (1185000922,13), (1184685316,13),
    (1184369770,13), (1184054283,13), (1183738857,13), (1183423490,13), (1183108182,13), (1182792935,13), (1182477746,13), (1182162618,13), (1181847549,13), (1181532540,13), (1181217591,13), (1180902701,13), (1180587871,13), (1180273100,13), (1179958389,13), (1179643737,13),
    (1179329145,13), (1179014612,13), (1178700139,13), (1178385725,13), (1178071370,13), (1177757075,13), (1177442840,13), (1177128664,13), (1176814547,13), (1176500489,13), (1176186491,13), (1175872552,13), (1175558673,13), (1175244853,13), (1174931092,13), (1174617390,13),
    (1174303748,13), (1173990164,13), (1173676640,13), (1173363175,13), (1173049770,13), (1172736423,13), (1172423136,13), (1172109907,13), (1171796738,13), (1171483628,13), (1171170577,13), (1170857585,13), (1170544652,13), (1170231778,13), (1169918963,13), (1169606207,13),
    (1169293510,13), (1168980872,13), (1168668293,13), (1168355773,13), (1168043311,13), (1167730909,13), (1167418566,13), (1167106281,13), (1166794055,13), (1166481888,13), (1166169780,13), (1165857730,13), (1165545739,13), (1165233807,13), (1164921934,13), (1164610120,13),
    (1164298364,13), (1163986667,13), (1163675028,13), (1163363448,13), (1163051927,13), (1162740465,13), (1162429061,13), (1162117715,13), (1161806429,13), (1161495200,13), (1161184031,13), (1160872919,13), (1160561867,13), (1160250872,13), (1159939937,13), (1159629059,13),
    (1159318241,13), (1159007480,13), (1158696778,13), (1158386134,13), (1158075549,13), (1157765022,13), (1157454554,13), (1157144143,13), (1156833791,13), (1156523498,13), (1156213262,13), (1155903085,13), (1155592966,13), (1155282905,13), (1154972903,13), (1154662959,13),
    (1154353073,13), (1154043245,13), (1153733475,13), (1153423763,13), (1153114109,13), (1152804514,13), (1152494976,13), (1152185497,13), (1151876076,13), (1151566712,13), (1151257407,13), (1150948160,13), (1150638971,13), (1150329839,13), (1150020766,13), (1149711750,13),
    (1149402793,13), (1149093893,13), (1148785051,13), (1148476267,13), (1148167541,13), (1147858873,13), (1147550262,13), (1147241710,13), (1146933215,13), (1146624778,13), (1146316398,13), (1146008077,13), (1145699813,13), (1145391606,13), (1145083458,13), (1144775367,13),
    (1144467334,13), (1144159358,13), (1143851440,13), (1143543580,13), (1143235777,13), (1142928032,13), (1142620344,13), (1142312714,13), (1142005142,13), (1141697627,13), (1141390169,13), (1141082769,13), (1140775426,13), (1140468141,13), (1140160913,13), (1139853743,13),
    (1139546630,13), (1139239574,13), (1138932576,13), (1138625635,13), (1138318752,13), (1138011925,13), (1137705156,13), (1137398445,13), (1137091790,13), (1136785193,13), (1136478653,13), (1136172170,13), (1135865745,13), (1135559377,13), (1135253065,13), (1134946811,13),
    (1134640615,13), (1134334475,13), (1134028392,13), (1133722367,13), (1133416398,13), (1133110487,13), (1132804632,13), (1132498835,13), (1132193095,13), (1131887411,13), (1131581785,13), (1131276215,13), (1130970703,13), (1130665247,13), (1130359849,13), (1130054507,13),
    (1129749222,13), (1129443994,13), (1129138823,13), (1128833709,13), (1128528651,13), (1128223651,13), (1127918707,13), (1127613820,13), (1127308989,13), (1127004216,13), (1126699499,13), (1126394838,13), (1126090235,13), (1125785688,13), (1125481198,13), (1125176764,13),
    (1124872388,13), (1124568067,13), (1124263804,13), (1123959596,13), (1123655446,13), (1123351352,13), (1123047314,13), (1122743334,13), (1122439409,13), (1122135541,13), (1121831730,13), (1121527975,13), (1121224276,13), (1120920634,13), (1120617048,13), (1120313519,13),
    (1120010046,13), (1119706629,13), (1119403269,13), (1119099965,13), (1118796717,13), (1118493526,13), (1118190391,13), (1117887312,13), (1117584289,13), (1117281323,13), (1116978413,13), (1116675559,13), (1116372761,13), (1116070020,13), (1115767335,13), (1115464705,13),
    (1115162132,13), (1114859615,13), (1114557154,13), (1114254750,13), (1113952401,13), (1113650108,13), (1113347871,13), (1113045691,13), (1112743566,13), (1112441497,13), (1112139485,13), (1111837528,13), (1111535627,13), (1111233782,13), (1110931993,13), (1110630260,13),
    (1110328583,13), (1110026962,13), (1109725396,13), (1109423886,13), (1109122433,13), (1108821034,13), (1108519692,13), (1108218406,13), (1107917175,13), (1107616000,13), (1107314881,13), (1107013817,13), (1106712809,13), (1106411857,13), (1106110960,13), (1105810119,13),
    (1105509334,13), (1105208604,13), (1104907930,13), (1104607312,13), (1104306749,13), (1104006241,13), (1103705790,13), (1103405393,13), (1103105053,13), (1102804767,13), (1102504537,13), (1102204363,13), (1101904244,13), (1101604180,13), (1101304172,13), (1101004220,13),
    (1100704322,13), (1100404480,13), (1100104694,13), (1099804962,13), (1099505287,13), (1099205666,13), (1098906101,13), (1098606590,13), (1098307136,13), (1098007736,13), (1097708392,13), (1097409103,13), (1097109869,13), (1096810690,13), (1096511566,13), (1096212498,13),
    (1095913485,13), (1095614526,13), (1095315623,13), (1095016775,13), (1094717983,13), (1094419245,13), (1094120562,13), (1093821934,13), (1093523361,13), (1093224844,13), (1092926381,13), (1092627973,13), (1092329620,13), (1092031322,13), (1091733080,13), (1091434891,13),
    (1091136758,13), (1090838680,13), (1090540657,13), (1090242688,13), (1089944774,13), (1089646915,13), (1089349111,13), (1089051362,13), (1088753668,13), (1088456028,13), (1088158443,13), (1087860912,13), (1087563437,13), (1087266016,13), (1086968650,13), (1086671338,13),
    (1086374081,13), (1086076879,13), (1085779731,13), (1085482638,13), (1085185600,13), (1084888616,13), (1084591687,13), (1084294812,13), (1083997992,13), (1083701226,13), (1083404515,13), (1083107858,13), (1082811256,13), (1082514708,13), (1082218215,13), (1081921776,13),
    (1081625391,13), (1081329061,13), (1081032786,13), (1080736564,13), (1080440397,13), (1080144285,13), (1079848226,13), (1079552222,13), (1079256273,13), (1078960377,13), (1078664536,13), (1078368749,13), (1078073016,13), (1077777338,13), (1077481714,13), (1077186143,13),
    (1076890628,13), (1076595166,13), (1076299758,13), (1076004405,13), (1075709105,13), (1075413860,13), (1075118669,13), (1074823532,13), (1074528449,13), (1074233420,13), (1073938445,13), (1073643523,13), (1073348656,13), (1073053843,13), (1072759084,13), (1072464379,13),
    (1072169728,13), (1071875131,13), (1071580588,13), (1071286098,13), (1070991662,13), (1070697281,13), (1070402953,13), (1070108679,13), (1069814459,13), (1069520292,13), (1069226180,13), (1068932121,13), (1068638116,13), (1068344164,13), (1068050267,13), (1067756423,13),
    (1067462633,13), (1067168896,13), (1066875213,13), (1066581584,13), (1066288008,13), (1065994486,13), (1065701018,13), (1065407603,13), (1065114242,13), (1064820935,13), (1064527681,13), (1064234480,13), (1063941333,13), (1063648240,13), (1063355200,13), (1063062213,13),
    (1062769280,13), (1062476401,13), (1062183575,13), (1061890802,13), (1061598083,13), (1061305417,13), (1061012804,13), (1060720245,13), (1060427739,13), (1060135287,13), (1059842887,13), (1059550542,13), (1059258249,13), (1058966010,13), (1058673824,13), (1058381691,13),
    (1058089611,13), (1057797585,13), (1057505612,13), (1057213692,13), (1056921825,13), (1056630011,13), (1056338251,13), (1056046544,13), (1055754889,13), (1055463288,13), (1055171740,13), (1054880245,13), (1054588803,13), (1054297414,13), (1054006079,13), (1053714796,13),
    (1053423566,13), (1053132389,13), (1052841265,13), (1052550194,13), (1052259176,13), (1051968211,13), (1051677299,13), (1051386440,13), (1051095633,13), (1050804880,13), (1050514179,13), (1050223531,13), (1049932936,13), (1049642394,13), (1049351905,13), (1049061468,13),
    (1048771084,13), (1048480753,13), (1048190475,13), (1047900249,13), (1047610077,13), (1047319956,13), (1047029889,13), (1046739874,13), (1046449912,13), (1046160002,13), (1045870145,13), (1045580341,13), (1045290589,13), (1045000890,13), (1044711244,13), (1044421650,13),
    (1044132108,13), (1043842619,13), (1043553183,13), (1043263799,13), (1042974467,13), (1042685188,13), (1042395962,13), (1042106788,13), (1041817666,13), (1041528597,13), (1041239580,13), (1040950615,13), (1040661703,13), (1040372843,13), (1040084036,13), (1039795281,13),
    (1039506578,13), (1039217927,13), (1038929329,13), (1038640783,13), (1038352290,13), (1038063848,13), (1037775459,13), (1037487122,13), (1037198837,13), (1036910604,13), (1036622424,13), (1036334296,13), (1036046219,13), (1035758195,13), (1035470223,13), (1035182304,13),
    (1034894436,13), (1034606620,13), (1034318856,13), (1034031145,13), (1033743485,13), (1033455878,13), (1033168322,13), (1032880819,13), (1032593367,13), (1032305967,13), (1032018620,13), (1031731324,13), (1031444080,13), (1031156888,13), (1030869748,13), (1030582660,13),
    (1030295624,13), (1030008639,13), (1029721706,13), (1029434826,13), (1029147996,13), (1028861219,13), (1028574494,13), (1028287820,13), (1028001198,13), (1027714628,13), (1027428109,13), (1027141642,13), (1026855227,13), (1026568864,13), (1026282552,13), (1025996292,13),
    (1025710083,13), (1025423927,13), (1025137821,13), (1024851768,13), (1024565765,13), (1024279815,13), (1023993916,13), (1023708068,13), (1023422273,13), (1023136528,13), (1022850835,13), (1022565194,13), (1022279604,13), (1021994065,13), (1021708578,13), (1021423142,13),
    (1021137758,13), (1020852425,13), (1020567144,13), (1020281914,13), (1019996735,13), (1019711608,13), (1019426532,13), (1019141507,13), (1018856533,13), (1018571611,13), (1018286740,13), (1018001921,13), (1017717152,13), (1017432435,13), (1017147769,13), (1016863154,13),
    (1016578591,13), (1016294078,13), (1016009617,13), (1015725207,13), (1015440848,13), (1015156540,13), (1014872284,13), (1014588078,13), (1014303923,13), (1014019820,13), (1013735767,13), (1013451766,13), (1013167816,13), (1012883916,13), (1012600068,13), (1012316271,13),
    (1012032524,13), (1011748829,13), (1011465184,13), (1011181591,13), (1010898048,13), (1010614556,13), (1010331115,13), (1010047725,13), (1009764386,13), (1009481098,13), (1009197861,13), (1008914674,13), (1008631538,13), (1008348453,13), (1008065419,13), (1007782435,13),
    (1007499503,13), (1007216620,13), (1006933789,13), (1006651009,13), (1006368279,13), (1006085600,13), (1005802971,13), (1005520393,13), (1005237866,13), (1004955389,13), (1004672963,13), (1004390588,13), (1004108263,13), (1003825989,13), (1003543765,13), (1003261592,13),
    (1002979469,13), (1002697397,13), (1002415376,13), (1002133405,13), (1001851484,13), (1001569614,13), (1001287794,13), (1001006025,13), (1000724306,13), (1000442638,13), (1000161020,13), (999879452,13), (999597935,13), (999316468,13), (999035051,13), (998753685,13),
    (998472369,13), (998191103,13), (997909888,13), (997628723,13), (997347608,13), (997066544,13), (996785529,13), (996504565,13), (996223651,13), (995942788,13), (995661974,13), (995381211,13), (995100498,13), (994819835,13), (994539222,13), (994258659,13),
    (993978146,13), (993697684,13), (993417271,13), (993136908,13), (992856596,13), (992576334,13), (992296121,13), (992015959,13), (991735847,13), (991455784,13), (991175772,13), (990895809,13), (990615897,13), (990336034,13), (990056221,13), (989776459,13),
    (989496746,13), (989217083,13), (988937469,13), (988657906,13), (988378393,13), (988098929,13), (987819515,13), (987540151,13), (987260837,13), (986981572,13), (986702357,13), (986423192,13), (986144077,13), (985865011,13), (985585995,13), (985307029,13),
    (985028113,13), (984749246,13), (984470428,13), (984191661,13), (983912943,13), (983634274,13), (983355656,13), (983077086,13), (982798567,13), (982520097,13), (982241676,13), (981963305,13), (981684984,13), (981406712,13), (981128489,13), (980850316,13),
    (980572193,13), (980294118,13), (980016094,13), (979738118,13), (979460193,13), (979182316,13), (978904489,13), (978626711,13), (978348983,13), (978071304,13), (977793674,13), (977516094,13), (977238563,13), (976961081,13), (976683649,13), (976406265,13),
    (976128931,13), (975851647,13), (975574411,13), (975297225,13), (975020088,13), (974743000,13), (974465961,13), (974188972,13), (973912031,13), (973635140,13), (973358298,13), (973081505,13), (972804761,13), (972528066,13), (972251420,13), (971974823,13),
    (971698275,13), (971421777,13), (971145327,13), (970868926,13), (970592574,13), (970316272,13), (970040018,13), (969763813,13), (969487657,13), (969211550,13), (968935492,13), (968659483,13), (968383523,13), (968107612,13), (967831749,13), (967555935,13),
    (967280171,13), (967004455,13), (966728787,13), (966453169,13), (966177599,13), (965902078,13), (965626606,13), (965351183,13), (965075808,13), (964800482,13), (964525205,13), (964249977,13), (963974797,13), (963699666,13), (963424583,13), (963149549,13),
    (962874564,13), (962599627,13), (962324739,13), (962049900,13), (961775109,13), (961500367,13), (961225673,13), (960951028,13), (960676431,13), (960401883,13), (960127383,13), (959852932,13), (959578529,13), (959304175,13), (959029869,13), (958755612,13),
    (958481403,13), (958207242,13), (957933130,13), (957659066,13), (957385051,13), (957111084,13), (956837165,13), (956563295,13), (956289473,13), (956015699,13), (955741973,13), (955468296,13), (955194667,13), (954921087,13), (954647554,13), (954374070,13),
    (954100634,13), (953827246,13), (953553907,13), (953280615,13), (953007372,13), (952734177,13), (952461030,13), (952187931,13), (951914880,13), (951641878,13), (951368923,13), (951096017,13), (950823158,13), (950550348,13), (950277586,13), (950004872,13),
    (949732205,13), (949459587,13), (949187017,13), (948914495,13), (948642020,13), (948369594,13), (948097215,13), (947824885,13), (947552602,13), (947280368,13), (947008181,13), (946736042,13), (946463951,13), (946191908,13), (945919912,13), (945647965,13),
    (945376065,13), (945104213,13), (944832409,13), (944560652,13), (944288944,13), (944017283,13), (943745670,13), (943474104,13), (943202587,13), (942931117,13), (942659694,13), (942388320,13), (942116993,13), (941845713,13), (941574481,13), (941303297,13),
    (941032161,13), (940761072,13), (940490031,13), (940219037,13), (939948091,13), (939677192,13), (939406341,13), (939135537,13), (938864781,13), (938594073,13), (938323412,13), (938052798,13), (937782232,13), (937511713,13), (937241242,13), (936970818,13),
    (936700442,13), (936430113,13), (936159831,13), (935889597,13), (935619410,13), (935349270,13), (935079178,13), (934809133,13), (934539135,13), (934269185,13), (933999282,13), (933729426,13), (933459618,13), (933189856,13), (932920142,13), (932650476,13),
    (932380856,13), (932111284,13), (931841758,13), (931572280,13), (931302850,13), (931033466,13), (930764129,13), (930494840,13), (930225597,13), (929956402,13), (929687254,13), (929418153,13), (929149099,13), (928880092,13), (928611132,13), (928342219,13),
    (928073353,13), (927804534,13), (927535762,13), (927267038,13), (926998360,13), (926729729,13), (926461144,13), (926192607,13), (925924117,13), (925655674,13), (925387277,13), (925118928,13), (924850625,13), (924582369,13), (924314160,13), (924045998,13),
    (923777883,13), (923509814,13), (923241792,13), (922973817,13), (922705889,13), (922438008,13), (922170173,13), (921902385,13), (921634644,13), (921366949,13), (921099301,13), (920831700,13), (920564145,13), (920296638,13), (920029176,13), (919761762,13),
    (919494394,13), (919227072,13), (918959798,13), (918692569,13), (918425388,13), (918158253,13), (917891164,13), (917624122,13), (917357127,13), (917090178,13), (916823275,13), (916556419,13), (916289610,13), (916022847,13), (915756130,13), (915489460,13),
    (915222837,13), (914956259,13), (914689728,13), (914423244,13), (914156806,13), (913890414,13), (913624069,13), (913357770,13), (913091517,13), (912825310,13), (912559150,13), (912293036,13), (912026969,13), (911760948,13), (911494973,13), (911229044,13),
    (910963161,13), (910697325,13), (910431535,13), (910165791,13), (909900093,13), (909634442,13), (909368836,13), (909103277,13), (908837764,13), (908572297,13), (908306876,13), (908041501,13), (907776173,13), (907510890,13), (907245653,13), (906980463,13),
    (906715319,13), (906450220,13), (906185168,13), (905920161,13), (905655201,13), (905390286,13), (905125418,13), (904860595,13), (904595819,13), (904331088,13), (904066404,13), (903801765,13), (903537172,13), (903272625,13), (903008124,13), (902743668,13),
    (902479259,13), (902214895,13), (901950578,13), (901686306,13), (901422079,13), (901157899,13), (900893764,13), (900629676,13), (900365633,13), (900101635,13), (899837684,13), (899573778,13), (899309918,13), (899046103,13), (898782334,13), (898518611,13),
    (898254934,13), (897991302,13), (897727716,13), (897464175,13), (897200680,13), (896937231,13), (896673827,13), (896410469,13), (896147156,13), (895883889,13), (895620667,13), (895357491,13), (895094361,13), (894831276,13), (894568236,13), (894305242,13),
    (894042294,13), (893779391,13), (893516533,13), (893253721,13), (892990954,13), (892728233,13), (892465557,13), (892202926,13), (891940341,13), (891677801,13), (891415306,13), (891152857,13), (890890453,13), (890628095,13), (890365782,13), (890103514,13),
    (889841291,13), (889579114,13), (889316982,13), (889054895,13), (888792853,13), (888530857,13), (888268905,13), (888006999,13), (887745139,13), (887483323,13), (887221553,13), (886959827,13), (886698147,13), (886436512,13), (886174922,13), (885913377,13),
    (885651877,13), (885390423,13), (885129013,13), (884867649,13), (884606329,13), (884345055,13), (884083825,13), (883822641,13), (883561501,13), (883300407,13), (883039358,13), (882778353,13), (882517394,13), (882256479,13), (881995609,13), (881734785,13),
    (881474005,13), (881213270,13), (880952580,13), (880691935,13), (880431334,13), (880170779,13), (879910268,13), (879649802,13), (879389381,13), (879129005,13), (878868674,13), (878608387,13), (878348145,13), (878087948,13), (877827796,13), (877567688,13),
    (877307626,13), (877047607,13), (876787634,13), (876527705,13), (876267821,13), (876007982,13), (875748187,13), (875488437,13), (875228731,13), (874969070,13), (874709454,13), (874449882,13), (874190355,13), (873930873,13), (873671435,13), (873412041,13),
    (873152693,13), (872893388,13), (872634128,13), (872374913,13), (872115742,13), (871856616,13), (871597534,13), (871338497,13), (871079504,13), (870820555,13), (870561651,13), (870302791,13), (870043976,13), (869785205,13), (869526478,13), (869267796,13),
    (869009158,13), (868750565,13), (868492016,13), (868233511,13), (867975051,13), (867716634,13), (867458262,13), (867199935,13), (866941651,13), (866683412,13), (866425217,13), (866167067,13), (865908960,13), (865650898,13), (865392880,13), (865134906,13),
    (864876977,13), (864619091,13), (864361250,13), (864103452,13), (863845699,13), (863587990,13), (863330326,13), (863072705,13), (862815128,13), (862557595,13), (862300107,13), (862042662,13), (861785262,13), (861527905,13), (861270593,13), (861013325,13),
    (860756100,13), (860498920,13), (860241783,13), (859984691,13), (859727642,13), (859470638,13), (859213677,13), (858956760,13), (858699887,13), (858443058,13), (858186273,13), (857929532,13), (857672834,13), (857416181,13), (857159571,13), (856903005,13),
    (856646483,13), (856390005,13), (856133570,13), (855877180,13), (855620833,13), (855364529,13), (855108270,13), (854852054,13), (854595882,13), (854339754,13), (854083669,13), (853827629,13), (853571631,13), (853315678,13), (853059768,13), (852803902,13),
    (852548079,13), (852292300,13), (852036565,13), (851780873,13), (851525225,13), (851269620,13), (851014059,13), (850758542,13), (850503068,13), (850247637,13), (849992250,13), (849736907,13), (849481607,13), (849226351,13), (848971138,13), (848715968,13),
    (848460842,13), (848205760,13), (847950721,13), (847695725,13), (847440773,13), (847185864,13), (846930998,13), (846676176,13), (846421397,13), (846166662,13), (845911970,13), (845657321,13), (845402716,13), (845148154,13), (844893635,13), (844639160,13),
    (844384727,13), (844130338,13), (843875993,13), (843621690,13), (843367431,13), (843113215,13), (842859042,13), (842604913,13), (842350826,13), (842096783,13), (841842783,13), (841588826,13), (841334913,13), (841081042,13), (840827214,13), (840573430,13),
    (840319689,13), (840065991,13), (839812336,13), (839558724,13), (839305155,13), (839051629,13), (838798146,13), (838544706,13), (838291309,13), (838037955,13), (837784644,13), (837531377,13), (837278152,13), (837024970,13), (836771831,13), (836518735,13),
    (836265682,13), (836012671,13), (835759704,13), (835506780,13), (835253898,13), (835001060,13), (834748264,13), (834495511,13), (834242801,13), (833990133,13), (833737509,13), (833484927,13), (833232388,13), (832979892,13), (832727439,13), (832475029,13),
    (832222661,13), (831970336,13), (831718054,13), (831465814,13), (831213617,13), (830961463,13), (830709351,13), (830457283,13), (830205256,13), (829953273,13), (829701332,13), (829449434,13), (829197578,13), (828945765,13), (828693995,13), (828442267,13),
    (828190582,13), (827938939,13), (827687339,13), (827435782,13), (827184267,13), (826932794,13), (826681364,13), (826429977,13), (826178632,13), (825927329,13), (825676069,13), (825424852,13), (825173677,13), (824922544,13), (824671454,13), (824420406,13),
    (824169401,13), (823918438,13), (823667517,13), (823416639,13), (823165803,13), (822915009,13), (822664258,13), (822413549,13), (822162883,13), (821912258,13), (821661676,13), (821411137,13), (821160639,13), (820910184,13), (820659772,13), (820409401,13),
    (820159073,13), (819908786,13), (819658542,13), (819408341,13), (819158181,13), (818908064,13), (818657989,13), (818407956,13), (818157965,13), (817908016,13), (817658110,13), (817408245,13), (817158423,13), (816908642,13), (816658904,13), (816409208,13),
    (816159554,13), (815909942,13), (815660372,13), (815410844,13), (815161358,13), (814911914,13), (814662513,13), (814413153,13), (814163835,13), (813914559,13), (813665325,13), (813416133,13), (813166983,13), (812917874,13), (812668808,13), (812419784,13),
    (812170801,13), (811921861,13), (811672962,13), (811424105,13), (811175290,13), (810926517,13), (810677786,13), (810429096,13), (810180449,13), (809931843,13), (809683279,13), (809434756,13), (809186276,13), (808937837,13), (808689440,13), (808441085,13),
    (808192771,13), (807944499,13), (807696269,13), (807448081,13), (807199934,13), (806951829,13), (806703766,13), (806455744,13), (806207764,13), (805959825,13), (805711928,13), (805464073,13), (805216259,13), (804968487,13), (804720757,13), (804473068,13),
    (804225420,13), (803977815,13), (803730250,13), (803482727,13), (803235246,13), (802987806,13), (802740408,13), (802493051,13), (802245736,13), (801998462,13), (801751230,13), (801504039,13), (801256890,13), (801009782,13), (800762715,13), (800515690,13),
    (800268706,13), (800021763,13), (799774862,13), (799528002,13), (799281184,13), (799034407,13), (798787671,13), (798540977,13), (798294324,13), (798047712,13), (797801141,13), (797554612,13), (797308124,13), (797061678,13), (796815272,13), (796568908,13),
    (796322585,13), (796076303,13), (795830062,13), (795583863,13), (795337705,13), (795091588,13), (794845512,13), (794599477,13), (794353484,13), (794107531,13), (793861620,13), (793615750,13), (793369921,13), (793124133,13), (792878386,13), (792632680,13),
    (792387015,13), (792141391,13), (791895809,13), (791650267,13), (791404766,13), (791159307,13), (790913888,13), (790668510,13), (790423174,13), (790177878,13), (789932623,13), (789687409,13), (789442236,13), (789197104,13), (788952013,13), (788706963,13),
    (788461954,13), (788216986,13), (787972058,13), (787727172,13), (787482326,13), (787237521,13), (786992757,13), (786748034,13), (786503351,13), (786258710,13), (786014109,13), (785769549,13), (785525029,13), (785280551,13), (785036113,13), (784791716,13),
    (784547360,13), (784303044,13), (784058769,13), (783814535,13), (783570342,13), (783326189,13), (783082077,13), (782838006,13), (782593975,13), (782349985,13), (782106035,13), (781862126,13), (781618258,13), (781374430,13), (781130643,13), (780886897,13),
    (780643191,13), (780399525,13), (780155901,13), (779912316,13), (779668773,13), (779425269,13), (779181807,13), (778938384,13), (778695003,13), (778451661,13), (778208361,13), (777965100,13), (777721880,13), (777478701,13), (777235562,13), (776992463,13),
    (776749405,13), (776506387,13), (776263410,13), (776020473,13), (775777576,13), (775534720,13), (775291904,13), (775049128,13), (774806393,13), (774563698,13), (774321043,13), (774078429,13), (773835855,13), (773593321,13), (773350828,13), (773108374,13),
    (772865961,13), (772623589,13), (772381256,13), (772138964,13), (771896712,13), (771654500,13), (771412328,13), (771170196,13), (770928105,13), (770686054,13), (770444043,13), (770202072,13), (769960141,13), (769718250,13), (769476400,13), (769234589,13),
    (768992819,13), (768751088,13), (768509398,13), (768267748,13), (768026138,13), (767784568,13), (767543038,13), (767301547,13), (767060097,13), (766818687,13), (766577317,13), (766335987,13), (766094697,13), (765853447,13), (765612237,13), (765371066,13),
    (765129936,13), (764888846,13), (764647795,13), (764406784,13), (764165814,13), (763924883,13), (763683992,13), (763443141,13), (763202329,13), (762961558,13), (762720826,13), (762480135,13), (762239483,13), (761998870,13), (761758298,13), (761517765,13),
    (761277273,13), (761036819,13), (760796406,13), (760556033,13), (760315699,13), (760075405,13), (759835150,13), (759594935,13), (759354760,13), (759114625,13), (758874529,13), (758634473,13), (758394457,13), (758154480,13), (757914543,13), (757674646,13),
    (757434788,13), (757194970,13), (756955191,13), (756715452,13), (756475752,13), (756236092,13), (755996472,13), (755756891,13), (755517350,13), (755277848,13), (755038386,13), (754798963,13), (754559580,13), (754320236,13), (754080932,13), (753841667,13),
    (753602442,13), (753363256,13), (753124109,13), (752885002,13), (752645935,13), (752406906,13), (752167917,13), (751928968,13), (751690058,13), (751451187,13), (751212356,13), (750973564,13), (750734811,13), (750496098,13), (750257424,13), (750018789,13),
    (749780194,13), (749541638,13), (749303121,13), (749064643,13), (748826205,13), (748587806,13), (748349446,13), (748111126,13), (747872844,13), (747634602,13), (747396399,13), (747158236,13), (746920111,13), (746682026,13), (746443979,13), (746205972,13),
    (745968005,13), (745730076,13), (745492186,13), (745254336,13), (745016524,13), (744778752,13), (744541019,13), (744303325,13), (744065669,13), (743828053,13), (743590476,13), (743352939,13), (743115440,13), (742877980,13), (742640559,13), (742403177,13),
    (742165834,13), (741928530,13), (741691265,13), (741454039,13), (741216852,13), (740979704,13), (740742595,13), (740505525,13), (740268494,13), (740031501,13), (739794548,13), (739557633,13), (739320758,13), (739083921,13), (738847123,13), (738610364,13),
    (738373643,13), (738136962,13), (737900319,13), (737663715,13), (737427150,13), (737190624,13), (736954136,13), (736717688,13), (736481278,13), (736244907,13), (736008574,13), (735772280,13), (735536025,13), (735299809,13), (735063632,13), (734827493,13),
    (734591393,13), (734355331,13), (734119308,13), (733883324,13), (733647378,13), (733411472,13), (733175603,13), (732939774,13), (732703983,13), (732468230,13), (732232516,13), (731996841,13), (731761204,13), (731525606,13), (731290047,13), (731054526,13),
    (730819043,13), (730583599,13), (730348194,13), (730112827,13), (729877498,13), (729642208,13), (729406957,13), (729171744,13), (728936569,13), (728701433,13), (728466335,13), (728231276,13), (727996255,13), (727761273,13), (727526329,13), (727291423,13),
    (727056556,13), (726821727,13), (726586936,13), (726352184,13), (726117471,13), (725882795,13), (725648158,13), (725413559,13), (725178999,13), (724944476,13), (724709992,13), (724475547,13), (724241139,13), (724006770,13), (723772439,13), (723538147,13),
    (723303892,13), (723069676,13), (722835498,13), (722601359,13), (722367257,13), (722133194,13), (721899168,13), (721665181,13), (721431233,13), (721197322,13), (720963449,13), (720729615,13), (720495818,13), (720262060,13), (720028340,13), (719794658,13),
    (719561014,13), (719327408,13), (719093841,13), (718860311,13), (718626819,13), (718393366,13), (718159950,13), (717926572,13), (717693233,13), (717459931,13), (717226668,13), (716993442,13), (716760254,13), (716527105,13), (716293993,13), (716060919,13),
    (715827883,13), (715594885,13), (715361925,13), (715129003,13), (714896119,13), (714663273,13), (714430464,13), (714197694,13), (713964961,13), (713732266,13), (713499609,13), (713266990,13), (713034409,13), (712801865,13), (712569359,13), (712336891,13),
    (712104461,13), (711872069,13), (711639714,13), (711407397,13), (711175118,13), (710942877,13), (710710673,13), (710478507,13), (710246379,13), (710014289,13), (709782236,13), (709550221,13), (709318243,13), (709086304,13), (708854402,13), (708622537,13),
    (708390710,13), (708158921,13), (707927170,13), (707695456,13), (707463779,13), (707232141,13), (707000539,13), (706768976,13), (706537450,13), (706305961,13), (706074511,13), (705843097,13), (705611721,13), (705380383,13), (705149082,13), (704917819,13),
    (704686593,13), (704455405,13), (704224254,13), (703993141,13), (703762065,13), (703531026,13), (703300025,13), (703069062,13), (702838135,13), (702607247,13), (702376395,13), (702145581,13), (701914805,13), (701684066,13), (701453364,13), (701222699,13),
    (700992072,13), (700761482,13), (700530930,13), (700300415,13), (700069937,13), (699839496,13), (699609093,13), (699378727,13), (699148399,13), (698918107,13), (698687853,13), (698457636,13), (698227456,13), (697997314,13), (697767209,13), (697537141,13),
    (697307110,13), (697077116,13), (696847160,13), (696617241,13), (696387359,13), (696157514,13), (695927706,13), (695697935,13), (695468202,13), (695238506,13), (695008846,13), (694779224,13), (694549639,13), (694320091,13), (694090580,13), (693861107,13),
    (693631670,13), (693402270,13), (693172907,13), (692943582,13), (692714293,13), (692485042,13), (692255827,13), (692026649,13), (691797509,13), (691568405,13), (691339339,13), (691110309,13), (690881316,13), (690652360,13), (690423441,13), (690194560,13),
    (689965715,13), (689736906,13), (689508135,13), (689279401,13), (689050703,13), (688822043,13), (688593419,13), (688364832,13), (688136282,13), (687907769,13), (687679293,13), (687450853,13), (687222451,13), (686994085,13), (686765755,13), (686537463,13),
    (686309208,13), (686080989,13), (685852807,13), (685624661,13), (685396553,13), (685168481,13), (684940446,13), (684712448,13), (684484486,13), (684256561,13), (684028673,13), (683800821,13), (683573006,13), (683345228,13), (683117486,13), (682889781,13),
    (682662113,13), (682434481,13), (682206886,13), (681979327,13), (681751805,13), (681524320,13), (681296871,13), (681069459,13), (680842083,13), (680614744,13), (680387441,13), (680160175,13), (679932946,13), (679705753,13), (679478597,13), (679251477,13),
    (679024393,13), (678797346,13), (678570336,13), (678343361,13), (678116424,13), (677889523,13), (677662658,13), (677435830,13), (677209038,13), (676982282,13), (676755563,13), (676528881,13), (676302234,13), (676075625,13), (675849051,13), (675622514,13),
    (675396013,13), (675169549,13), (674943120,13), (674716729,13), (674490373,13), (674264054,13), (674037771,13), (673811524,13), (673585314,13), (673359140,13), (673133002,13), (672906901,13), (672680835,13), (672454806,13), (672228814,13), (672002857,13),
    (671776937,13), (671551052,13), (671325204,13), (671099393,13), (670873617,13), (670647877,13), (670422174,13), (670196507,13), (669970876,13), (669745281,13), (669519722,13), (669294200,13), (669068713,13), (668843263,13), (668617848,13), (668392470,13),
    (668167128,13), (667941822,13), (667716552,13), (667491318,13), (667266120,13), (667040958,13), (666815832,13), (666590742,13), (666365688,13), (666140670,13), (665915688,13), (665690742,13), (665465832,13), (665240958,13), (665016120,13), (664791318,13),
    (664566551,13), (664341821,13), (664117127,13), (663892468,13), (663667846,13), (663443259,13), (663218708,13), (662994193,13), (662769714,13), (662545271,13), (662320864,13), (662096492,13), (661872156,13), (661647857,13), (661423593,13), (661199364,13),
    (660975172,13), (660751015,13), (660526894,13), (660302809,13), (660078760,13), (659854746,13), (659630768,13), (659406826,13), (659182920,13), (658959049,13), (658735214,13), (658511415,13), (658287651,13), (658063924,13), (657840231,13), (657616575,13),
    (657392954,13), (657169369,13), (656945819,13), (656722305,13), (656498827,13), (656275384,13), (656051977,13), (655828606,13), (655605270,13), (655381969,13), (655158705,13), (654935475,13), (654712282,13), (654489124,13), (654266001,13), (654042914,13),
    (653819863,13), (653596847,13), (653373866,13), (653150921,13), (652928012,13), (652705138,13), (652482299,13), (652259496,13), (652036729,13), (651813997,13), (651591300,13), (651368639,13), (651146013,13), (650923422,13), (650700867,13), (650478348,13),
    (650255863,13), (650033415,13), (649811001,13), (649588623,13), (649366280,13), (649143973,13), (648921701,13), (648699464,13), (648477262,13), (648255096,13), (648032965,13), (647810870,13), (647588810,13), (647366785,13), (647144795,13), (646922840,13),
    (646700921,13), (646479037,13), (646257189,13), (646035375,13), (645813597,13), (645591854,13), (645370146,13), (645148473,13), (644926836,13), (644705233,13), (644483666,13), (644262134,13), (644040638,13), (643819176,13), (643597749,13), (643376358,13),
    (643155002,13), (642933681,13), (642712394,13), (642491143,13), (642269928,13), (642048747,13), (641827601,13), (641606490,13), (641385415,13), (641164374,13), (640943369,13), (640722398,13), (640501463,13), (640280562,13), (640059697,13), (639838866,13),
    (639618071,13), (639397310,13), (639176584,13), (638955894,13), (638735238,13), (638514618,13), (638294032,13), (638073481,13), (637852965,13), (637632484,13), (637412038,13), (637191627,13), (636971250,13), (636750909,13), (636530602,13), (636310331,13),
    (636090094,13), (635869892,13), (635649725,13), (635429592,13), (635209495,13), (634989432,13), (634769404,13), (634549411,13), (634329453,13), (634109529,13), (633889640,13), (633669786,13), (633449967,13), (633230182,13), (633010433,13), (632790717,13),
    (632571037,13), (632351392,13), (632131781,13), (631912204,13), (631692663,13), (631473156,13), (631253684,13), (631034246,13), (630814843,13), (630595475,13), (630376142,13), (630156843,13), (629937578,13), (629718349,13), (629499154,13), (629279993,13),
    (629060867,13), (628841776,13), (628622719,13), (628403697,13), (628184709,13), (627965756,13), (627746838,13), (627527953,13), (627309104,13), (627090289,13), (626871509,13), (626652763,13), (626434051,13), (626215374,13), (625996732,13), (625778124,13),
    (625559550,13), (625341011,13), (625122506,13), (624904036,13), (624685600,13), (624467199,13), (624248832,13), (624030499,13), (623812201,13), (623593937,13), (623375707,13), (623157512,13), (622939352,13), (622721225,13), (622503133,13), (622285076,13),
    (622067052,13), (621849063,13), (621631108,13), (621413188,13), (621195302,13), (620977450,13), (620759633,13), (620541849,13), (620324100,13), (620106385,13), (619888705,13), (619671059,13), (619453447,13), (619235869,13), (619018325,13), (618800816,13),
    (618583341,13), (618365900,13), (618148493,13), (617931120,13), (617713782,13), (617496477,13), (617279207,13), (617061971,13), (616844769,13), (616627602,13), (616410468,13), (616193368,13), (615976303,13), (615759272,13), (615542274,13), (615325311,13),
    (615108382,13), (614891487,13), (614674626,13), (614457799,13), (614241006,13), (614024247,13), (613807523,13), (613590832,13), (613374175,13), (613157552,13), (612940963,13), (612724408,13), (612507888,13), (612291401,13), (612074948,13), (611858529,13),
    (611642144,13), (611425793,13), (611209475,13), (610993192,13), (610776943,13), (610560727,13), (610344546,13), (610128398,13), (609912284,13), (609696204,13), (609480158,13), (609264146,13), (609048168,13), (608832223,13), (608616312,13), (608400436,13),
    (608184593,13), (607968783,13), (607753008,13), (607537266,13), (607321558,13), (607105884,13), (606890244,13), (606674637,13), (606459065,13), (606243525,13), (606028020,13), (605812549,13), (605597111,13), (605381706,13), (605166336,13), (604950999,13),
    (604735696,13), (604520427,13), (604305191,13), (604089989,13), (603874821,13), (603659686,13), (603444585,13), (603229517,13), (603014483,13), (602799483,13), (602584516,13), (602369583,13), (602154684,13), (601939818,13), (601724986,13), (601510187,13),
    (601295422,13), (601080690,13), (600865992,13), (600651328,13), (600436697,13), (600222099,13), (600007535,13), (599793005,13), (599578508,13), (599364045,13), (599149615,13), (598935218,13), (598720855,13), (598506526,13), (598292230,13), (598077967,13),
    (597863738,13), (597649542,13), (597435380,13), (597221251,13), (597007155,13), (596793093,13), (596579064,13), (596365069,13), (596151107,13), (595937178,13), (595723283,13), (595509421,13), (595295592,13), (595081797,13), (594868035,13), (594654307,13),
    (594440611,13), (594226949,13), (594013321,13), (593799725,13), (593586163,13), (593372634,13), (593159139,13), (592945676,13), (592732247,13), (592518851,13), (592305489,13), (592092159,13), (591878863,13), (591665600,13), (591452371,13), (591239174,13),
    (591026011,13), (590812881,13), (590599784,13), (590386720,13), (590173689,13), (589960691,13), (589747727,13), (589534796,13), (589321898,13), (589109033,13), (588896201,13), (588683402,13), (588470636,13), (588257904,13), (588045204,13), (587832538,13),
    (587619904,13), (587407304,13), (587194737,13), (586982202,13), (586769701,13), (586557233,13), (586344798,13), (586132395,13), (585920026,13), (585707690,13), (585495387,13), (585283117,13), (585070879,13), (584858675,13), (584646504,13), (584434365,13),
    (584222260,13), (584010188,13), (583798148,13), (583586141,13), (583374168,13), (583162227,13), (582950319,13), (582738444,13), (582526601,13), (582314792,13), (582103016,13), (581891272,13), (581679561,13), (581467883,13), (581256238,13), (581044626,13),
    (580833047,13), (580621500,13), (580409986,13), (580198505,13), (579987057,13), (579775642,13), (579564259,13), (579352909,13), (579141592,13), (578930307,13), (578719056,13), (578507837,13), (578296651,13), (578085497,13), (577874376,13), (577663288,13),
    (577452233,13), (577241210,13), (577030220,13), (576819263,13), (576608338,13), (576397446,13), (576186587,13), (575975760,13), (575764966,13), (575554205,13), (575343476,13), (575132780,13), (574922116,13), (574711485,13), (574500887,13), (574290321,13),
    (574079788,13), (573869287,13), (573658819,13), (573448383,13), (573237980,13), (573027610,13), (572817272,13), (572606966,13), (572396693,13), (572186453,13), (571976245,13), (571766070,13), (571555927,13), (571345816,13), (571135738,13), (570925693,13),
    (570715680,13), (570505699,13), (570295751,13), (570085835,13), (569875952,13), (569666101,13), (569456282,13), (569246496,13), (569036742,13), (568827021,13), (568617332,13), (568407675,13), (568198051,13), (567988459,13), (567778900,13), (567569373,13),
    (567359878,13), (567150415,13), (566940985,13), (566731587,13), (566522222,13), (566312888,13), (566103587,13), (565894319,13), (565685082,13), (565475878,13), (565266706,13), (565057567,13), (564848459,13), (564639384,13), (564430341,13), (564221330,13),
    (564012352,13), (563803406,13), (563594492,13), (563385610,13), (563176760,13), (562967942,13), (562759157,13), (562550404,13), (562341683,13), (562132994,13), (561924337,13), (561715713,13), (561507120,13), (561298560,13), (561090031,13), (560881535,13),
    (560673071,13), (560464639,13), (560256239,13), (560047871,13), (559839536,13), (559631232,13), (559422960,13), (559214721,13), (559006513,13), (558798338,13), (558590194,13), (558382083,13), (558174003,13), (557965956,13), (557757940,13), (557549957,13),
    (557342005,13), (557134086,13), (556926198,13), (556718342,13), (556510519,13), (556302727,13), (556094967,13), (555887239,13), (555679543,13), (555471879,13), (555264247,13), (555056647,13), (554849078,13), (554641542,13), (554434037,13), (554226564,13),
    (554019123,13), (553811714,13), (553604337,13), (553396992,13), (553189678,13), (552982397,13), (552775147,13), (552567929,13), (552360742,13), (552153588,13), (551946465,13), (551739374,13), (551532315,13), (551325288,13), (551118292,13), (550911328,13),
    (550704396,13), (550497496,13), (550290627,13), (550083790,13), (549876985,13), (549670211,13), (549463470,13), (549256759,13), (549050081,13), (548843434,13), (548636819,13), (548430236,13), (548223684,13), (548017164,13), (547810675,13), (547604218,13),
    (547397793,13), (547191400,13), (546985038,13), (546778707,13), (546572408,13), (546366141,13), (546159905,13), (545953701,13), (545747529,13), (545541388,13), (545335279,13), (545129201,13), (544923155,13), (544717140,13), (544511157,13), (544305205,13),
    (544099285,13), (543893396,13), (543687539,13), (543481713,13), (543275919,13), (543070156,13), (542864425,13), (542658725,13), (542453057,13), (542247420,13), (542041814,13), (541836240,13), (541630697,13), (541425186,13), (541219706,13), (541014258,13),
    (540808841,13), (540603455,13), (540398101,13), (540192778,13), (539987487,13), (539782227,13), (539576998,13), (539371800,13), (539166634,13), (538961499,13), (538756396,13), (538551324,13), (538346283,13), (538141273,13), (537936295,13), (537731348,13),
    (537526433,13), (537321548,13), (537116695,13), (536911873,13), (536707082,13), (536502323,13), (536297595,13), (536092898,13), (535888232,13), (535683598,13), (535478995,13), (535274423,13), (535069882,13), (534865372,13), (534660893,13), (534456446,13),
    (534252030,13), (534047645,13), (533843291,13), (533638968,13), (533434677,13), (533230416,13), (533026187,13), (532821989,13), (532617822,13), (532413686,13), (532209581,13), (532005507,13), (531801464,13), (531597453,13), (531393472,13), (531189523,13),
    (530985604,13), (530781717,13), (530577860,13), (530374035,13), (530170241,13), (529966477,13), (529762745,13), (529559044,13), (529355373,13), (529151734,13), (528948126,13), (528744548,13), (528541002,13), (528337486,13), (528134002,13), (527930548,13),
    (527727126,13), (527523734,13), (527320373,13), (527117043,13), (526913744,13), (526710476,13), (526507239,13), (526304033,13), (526100858,13), (525897713,13), (525694600,13), (525491517,13), (525288465,13), (525085444,13), (524882454,13), (524679494,13),
    (524476566,13), (524273668,13), (524070801,13), (523867965,13), (523665160,13), (523462385,13), (523259641,13), (523056929,13), (522854246,13), (522651595,13), (522448974,13), (522246384,13), (522043825,13), (521841297,13), (521638799,13), (521436332,13),
    (521233896,13), (521031490,13), (520829115,13), (520626771,13), (520424458,13), (520222175,13), (520019923,13), (519817701,13), (519615510,13), (519413350,13), (519211221,13), (519009122,13), (518807053,13), (518605016,13), (518403009,13), (518201032,13),
    (517999087,13), (517797171,13), (517595287,13), (517393433,13), (517191609,13), (516989816,13), (516788054,13), (516586322,13), (516384621,13), (516182950,13), (515981310,13), (515779700,13), (515578121,13), (515376573,13), (515175055,13), (514973567,13),
    (514772110,13), (514570683,13), (514369287,13), (514167921,13), (513966586,13), (513765281,13), (513564007,13), (513362763,13), (513161550,13), (512960367,13), (512759214,13), (512558092,13), (512357000,13), (512155939,13), (511954908,13), (511753907,13),
    (511552937,13), (511351997,13), (511151088,13), (510950209,13), (510749360,13), (510548542,13), (510347754,13), (510146996,13), (509946269,13), (509745572,13), (509544905,13), (509344268,13), (509143662,13), (508943086,13), (508742541,13), (508542025,13),
    (508341540,13), (508141086,13), (507940661,13), (507740267,13), (507539903,13), (507339569,13), (507139265,13), (506938992,13), (506738749,13), (506538536,13), (506338353,13), (506138201,13), (505938079,13), (505737987,13), (505537925,13), (505337893,13),
    (505137891,13), (504937920,13), (504737978,13), (504538067,13), (504338186,13), (504138335,13), (503938514,13), (503738724,13), (503538963,13), (503339233,13), (503139532,13), (502939862,13), (502740222,13), (502540612,13), (502341032,13), (502141482,13),
    (501941962,13), (501742472,13), (501543012,13), (501343582,13), (501144182,13), (500944812,13), (500745473,13), (500546163,13), (500346883,13), (500147633,13), (499948413,13), (499749224,13), (499550064,13), (499350934,13), (499151834,13), (498952764,13),
    (498753724,13), (498554714,13), (498355734,13), (498156783,13), (497957863,13), (497758973,13), (497560112,13), (497361281,13), (497162481,13), (496963710,13), (496764969,13), (496566258,13), (496367576,13), (496168925,13), (495970304,13), (495771712,13),
    (495573150,13), (495374618,13), (495176116,13), (494977643,13), (494779201,13), (494580788,13), (494382405,13), (494184052,13), (493985729,13), (493787435,13), (493589171,13), (493390937,13), (493192733,13), (492994558,13), (492796413,13), (492598298,13),
    (492400213,13), (492202157,13), (492004131,13), (491806135,13), (491608168,13), (491410232,13), (491212324,13), (491014447,13), (490816599,13), (490618781,13), (490420993,13), (490223234,13), (490025505,13), (489827805,13), (489630135,13), (489432495,13),
    (489234884,13), (489037303,13), (488839752,13), (488642230,13), (488444738,13), (488247275,13), (488049842,13), (487852439,13), (487655065,13), (487457721,13), (487260406,13), (487063121,13), (486865865,13), (486668639,13), (486471442,13), (486274275,13),
    (486077138,13), (485880030,13), (485682951,13), (485485902,13), (485288882,13), (485091892,13), (484894932,13), (484698001,13), (484501099,13), (484304227,13), (484107384,13), (483910570,13), (483713787,13), (483517032,13), (483320307,13), (483123611,13),
    (482926945,13), (482730308,13), (482533701,13), (482337123,13), (482140574,13), (481944055,13), (481747565,13), (481551105,13), (481354674,13), (481158272,13), (480961899,13), (480765556,13), (480569242,13), (480372958,13), (480176703,13), (479980477,13),
    (479784280,13), (479588113,13), (479391975,13), (479195866,13), (478999787,13), (478803737,13), (478607716,13), (478411724,13), (478215762,13), (478019829,13), (477823925,13), (477628051,13), (477432205,13), (477236389,13), (477040602,13), (476844844,13),
    (476649116,13), (476453416,13), (476257746,13), (476062105,13), (475866493,13), (475670911,13), (475475357,13), (475279833,13), (475084338,13), (474888872,13), (474693435,13), (474498027,13), (474302648,13), (474107299,13), (473911978,13), (473716687,13),
    (473521425,13), (473326192,13), (473130987,13), (472935812,13), (472740667,13), (472545550,13), (472350462,13), (472155403,13), (471960373,13), (471765373,13), (471570401,13), (471375458,13), (471180545,13), (470985660,13), (470790805,13), (470595978,13),
    (470401181,13), (470206412,13), (470011672,13), (469816962,13), (469622280,13), (469427627,13), (469233003,13), (469038409,13), (468843843,13), (468649306,13), (468454798,13), (468260319,13), (468065868,13), (467871447,13), (467677055,13), (467482691,13),
    (467288357,13), (467094051,13), (466899774,13), (466705526,13), (466511307,13), (466317117,13), (466122955,13), (465928823,13), (465734719,13), (465540644,13), (465346598,13), (465152581,13), (464958593,13), (464764633,13), (464570702,13), (464376800,13),
    (464182927,13), (463989082,13), (463795267,13), (463601480,13), (463407722,13), (463213992,13), (463020291,13), (462826619,13), (462632976,13), (462439362,13), (462245776,13), (462052219,13), (461858691,13), (461665191,13), (461471720,13), (461278278,13),
    (461084864,13), (460891480,13), (460698123,13), (460504796,13), (460311497,13), (460118227,13), (459924985,13), (459731772,13), (459538588,13), (459345432,13), (459152305,13), (458959207,13), (458766137,13), (458573096,13), (458380083,13), (458187099,13),
    (457994143,13), (457801217,13), (457608318,13), (457415448,13), (457222607,13), (457029795,13), (456837010,13), (456644255,13), (456451528,13), (456258829,13), (456066159,13), (455873518,13), (455680905,13), (455488320,13), (455295764,13), (455103237,13),
    (454910738,13), (454718267,13), (454525825,13), (454333411,13), (454141026,13), (453948670,13), (453756341,13), (453564041,13), (453371770,13), (453179527,13), (452987313,13), (452795126,13), (452602969,13), (452410839,13), (452218738,13), (452026666,13),
    (451834621,13), (451642606,13), (451450618,13), (451258659,13), (451066728,13), (450874826,13), (450682952,13), (450491106,13), (450299289,13), (450107500,13), (449915739,13), (449724007,13), (449532302,13), (449340627,13), (449148979,13), (448957360,13),
    (448765769,13), (448574206,13), (448382672,13), (448191165,13), (447999687,13), (447808238,13), (447616816,13), (447425423,13), (447234058,13), (447042721,13), (446851413,13), (446660133,13), (446468880,13), (446277657,13), (446086461,13), (445895293,13),
    (445704154,13), (445513043,13), (445321960,13), (445130905,13), (444939878,13), (444748879,13), (444557909,13), (444366967,13), (444176053,13), (443985167,13), (443794309,13), (443603479,13), (443412677,13), (443221904,13), (443031158,13), (442840441,13),
    (442649751,13), (442459090,13), (442268457,13), (442077852,13), (441887275,13), (441696726,13), (441506205,13), (441315712,13), (441125247,13), (440934810,13), (440744401,13), (440554020,13), (440363667,13), (440173342,13), (439983045,13), (439792776,13),
    (439602536,13), (439412323,13), (439222138,13), (439031981,13), (438841852,13), (438651750,13), (438461677,13), (438271632,13), (438081615,13), (437891625,13), (437701664,13), (437511730,13), (437321825,13), (437131947,13), (436942097,13), (436752275,13),
    (436562481,13), (436372715,13), (436182977,13), (435993266,13), (435803584,13), (435613929,13), (435424302,13), (435234703,13), (435045132,13), (434855588,13), (434666073,13), (434476585,13), (434287125,13), (434097693,13), (433908289,13), (433718912,13),
    (433529563,13), (433340242,13), (433150949,13), (432961684,13), (432772446,13), (432583236,13), (432394054,13), (432204899,13), (432015773,13), (431826674,13), (431637602,13), (431448559,13), (431259543,13), (431070555,13), (430881594,13), (430692661,13),
    (430503756,13), (430314879,13), (430126029,13), (429937207,13), (429748413,13), (429559646,13), (429370907,13), (429182196,13), (428993512,13), (428804856,13), (428616227,13), (428427626,13), (428239053,13), (428050507,13), (427861989,13), (427673499,13),
    (427485036,13), (427296600,13), (427108193,13), (426919813,13), (426731460,13), (426543135,13), (426354837,13), (426166567,13), (425978325,13), (425790110,13), (425601923,13), (425413763,13), (425225631,13), (425037526,13), (424849449,13), (424661399,13),
    (424473377,13), (424285382,13), (424097414,13), (423909475,13), (423721562,13), (423533677,13), (423345820,13), (423157990,13), (422970187,13), (422782412,13), (422594664,13), (422406944,13), (422219251,13), (422031586,13), (421843948,13), (421656337,13),
    (421468754,13), (421281198,13), (421093670,13), (420906168,13), (420718695,13), (420531248,13), (420343829,13), (420156438,13), (419969074,13), (419781737,13), (419594427,13), (419407145,13), (419219890,13), (419032662,13), (418845462,13), (418658289,13),
    (418471143,13), (418284025,13), (418096934,13), (417909870,13), (417722833,13), (417535824,13), (417348842,13), (417161887,13), (416974960,13), (416788059,13), (416601186,13), (416414340,13), (416227522,13), (416040731,13), (415853966,13), (415667230,13),
    (415480520,13), (415293837,13), (415107182,13), (414920554,13), (414733953,13), (414547379,13), (414360833,13), (414174313,13), (413987821,13), (413801356,13), (413614918,13), (413428507,13), (413242123,13), (413055767,13), (412869437,13), (412683135,13),
    (412496860,13), (412310611,13), (412124390,13), (411938196,13), (411752030,13), (411565890,13), (411379777,13), (411193692,13), (411007633,13), (410821601,13), (410635597,13), (410449620,13), (410263669,13), (410077746,13), (409891850,13), (409705980,13),
    (409520138,13), (409334323,13), (409148535,13), (408962773,13), (408777039,13), (408591332,13), (408405651,13), (408219998,13), (408034372,13), (407848772,13), (407663200,13), (407477654,13), (407292136,13), (407106644,13), (406921180,13), (406735742,13),
    (406550331,13), (406364947,13), (406179590,13), (405994260,13), (405808957,13), (405623681,13), (405438431,13), (405253209,13), (405068013,13), (404882844,13), (404697702,13), (404512587,13), (404327499,13), (404142438,13), (403957403,13), (403772395,13),
    (403587415,13), (403402461,13), (403217533,13), (403032633,13), (402847759,13), (402662913,13), (402478093,13), (402293299,13), (402108533,13), (401923793,13), (401739080,13), (401554394,13), (401369735,13), (401185102,13), (401000496,13), (400815917,13),
    (400631365,13), (400446839,13), (400262340,13), (400077868,13), (399893422,13), (399709004,13), (399524611,13), (399340246,13), (399155907,13), (398971595,13), (398787310,13), (398603051,13), (398418819,13), (398234614,13), (398050435,13), (397866283,13),
    (397682158,13), (397498059,13), (397313987,13), (397129941,13), (396945922,13), (396761930,13), (396577964,13), (396394025,13), (396210113,13), (396026227,13), (395842367,13), (395658535,13), (395474728,13), (395290949,13), (395107196,13), (394923469,13),
    (394739769,13), (394556096,13), (394372449,13), (394188829,13), (394005235,13), (393821668,13), (393638127,13), (393454613,13), (393271125,13), (393087664,13), (392904229,13), (392720821,13), (392537439,13), (392354084,13), (392170755,13), (391987452,13),
    (391804176,13), (391620927,13), (391437704,13), (391254507,13), (391071337,13), (390888194,13), (390705076,13), (390521985,13), (390338921,13), (390155883,13), (389972871,13), (389789886,13), (389606927,13), (389423995,13), (389241089,13), (389058209,13),
    (388875355,13), (388692528,13), (388509728,13), (388326953,13), (388144206,13), (387961484,13), (387778789,13), (387596120,13), (387413477,13), (387230861,13), (387048271,13), (386865707,13), (386683170,13), (386500659,13), (386318174,13), (386135715,13),
    (385953283,13), (385770877,13), (385588497,13), (385406144,13), (385223816,13), (385041515,13), (384859241,13), (384676992,13), (384494770,13), (384312574,13), (384130404,13), (383948260,13), (383766143,13), (383584052,13), (383401987,13), (383219948,13),
    (383037935,13), (382855949,13), (382673989,13), (382492055,13), (382310147,13), (382128265,13), (381946409,13), (381764580,13), (381582776,13), (381400999,13), (381219248,13), (381037523,13), (380855824,13), (380674152,13), (380492505,13), (380310884,13),
    (380129290,13), (379947722,13), (379766179,13), (379584663,13), (379403173,13), (379221709,13), (379040271,13), (378858859,13), (378677473,13), (378496113,13), (378314780,13), (378133472,13), (377952190,13), (377770934,13), (377589705,13), (377408501,13),
    (377227323,13), (377046172,13), (376865046,13), (376683946,13), (376502873,13), (376321825,13), (376140803,13), (375959807,13), (375778837,13), (375597893,13), (375416976,13), (375236084,13), (375055217,13), (374874377,13), (374693563,13), (374512775,13),
    (374332013,13), (374151276,13), (373970566,13), (373789881,13), (373609222,13), (373428589,13), (373247982,13), (373067401,13), (372886846,13), (372706317,13), (372525813,13), (372345335,13), (372164884,13), (371984458,13), (371804058,13), (371623683,13),
    (371443335,13), (371263012,13), (371082715,13), (370902444,13), (370722199,13), (370541980,13), (370361786,13), (370181618,13), (370001476,13), (369821360,13), (369641269,13), (369461205,13), (369281166,13), (369101153,13), (368921165,13), (368741203,13),
    (368561267,13), (368381357,13), (368201473,13), (368021614,13), (367841781,13), (367661973,13), (367482192,13), (367302436,13), (367122705,13), (366943001,13), (366763322,13), (366583669,13), (366404041,13), (366224439,13), (366044863,13), (365865312,13),
    (365685787,13), (365506288,13), (365326814,13), (365147366,13), (364967944,13), (364788547,13), (364609176,13), (364429831,13), (364250511,13), (364071216,13), (363891948,13), (363712705,13), (363533487,13), (363354295,13), (363175129,13), (362995988,13),
    (362816873,13), (362637783,13), (362458719,13), (362279680,13), (362100667,13), (361921679,13), (361742717,13), (361563781,13), (361384870,13), (361205985,13), (361027125,13), (360848290,13), (360669481,13), (360490698,13), (360311940,13), (360133207,13),
    (359954500,13), (359775819,13), (359597163,13), (359418532,13), (359239927,13), (359061347,13), (358882793,13), (358704264,13), (358525761,13), (358347283,13), (358168830,13), (357990403,13), (357812001,13), (357633625,13), (357455274,13), (357276948,13),
    (357098648,13), (356920373,13), (356742124,13), (356563900,13), (356385701,13), (356207528,13), (356029380,13), (355851257,13), (355673160,13), (355495088,13), (355317042,13), (355139020,13), (354961025,13), (354783054,13), (354605109,13), (354427189,13),
    (354249294,13), (354071425,13), (353893580,13), (353715762,13), (353537968,13), (353360200,13), (353182457,13), (353004739,13), (352827047,13), (352649379,13), (352471738,13), (352294121,13), (352116529,13), (351938963,13), (351761422,13), (351583906,13),
    (351406416,13), (351228950,13), (351051510,13), (350874095,13), (350696705,13), (350519341,13), (350342001,13), (350164687,13), (349987398,13), (349810134,13), (349632895,13), (349455682,13), (349278493,13), (349101330,13), (348924192,13), (348747079,13),
    (348569991,13), (348392928,13), (348215891,13), (348038878,13), (347861891,13), (347684928,13), (347507991,13), (347331079,13), (347154192,13), (346977330,13), (346800493,13), (346623681,13), (346446895,13), (346270133,13), (346093396,13), (345916685,13),
    (345739998,13), (345563337,13), (345386700,13), (345210089,13), (345033502,13), (344856941,13), (344680405,13), (344503893,13), (344327407,13), (344150946,13), (343974509,13), (343798098,13), (343621711,13), (343445350,13), (343269013,13), (343092702,13),
    (342916415,13), (342740154,13), (342563917,13), (342387705,13), (342211519,13), (342035357,13), (341859220,13), (341683108,13), (341507021,13), (341330959,13), (341154922,13), (340978909,13), (340802922,13), (340626959,13), (340451021,13), (340275109,13),
    (340099221,13), (339923358,13), (339747520,13), (339571706,13), (339395918,13), (339220154,13), (339044415,13), (338868701,13), (338693012,13), (338517348,13), (338341709,13), (338166094,13), (337990504,13), (337814939,13), (337639399,13), (337463883,13),
    (337288393,13), (337112927,13), (336937486,13), (336762069,13), (336586678,13), (336411311,13), (336235969,13), (336060652,13), (335885359,13), (335710092,13), (335534849,13), (335359630,13), (335184437,13), (335009268,13), (334834124,13), (334659004,13),
    (334483910,13), (334308840,13), (334133794,13), (333958774,13), (333783778,13), (333608806,13), (333433860,13), (333258938,13), (333084041,13), (332909168,13), (332734320,13), (332559497,13), (332384698,13), (332209924,13), (332035175,13), (331860450,13),
    (331685750,13), (331511074,13), (331336424,13), (331161797,13), (330987196,13), (330812619,13), (330638066,13), (330463538,13), (330289035,13), (330114556,13), (329940102,13), (329765672,13), (329591267,13), (329416887,13), (329242531,13), (329068199,13),
    (328893893,13), (328719610,13), (328545352,13), (328371119,13), (328196910,13), (328022726,13), (327848566,13), (327674431,13), (327500320,13), (327326234,13), (327152173,13), (326978135,13), (326804122,13), (326630134,13), (326456170,13), (326282231,13),
    (326108316,13), (325934426,13), (325760560,13), (325586718,13), (325412901,13), (325239108,13), (325065340,13), (324891596,13), (324717876,13), (324544181,13), (324370511,13), (324196865,13), (324023243,13), (323849645,13), (323676072,13), (323502523,13),
    (323328999,13), (323155499,13), (322982024,13), (322808572,13), (322635146,13), (322461743,13), (322288365,13), (322115011,13), (321941682,13), (321768376,13), (321595096,13), (321421839,13), (321248607,13), (321075399,13), (320902215,13), (320729056,13),
    (320555921,13), (320382810,13), (320209724,13), (320036662,13), (319863624,13), (319690610,13), (319517621,13), (319344656,13), (319171715,13), (318998798,13), (318825906,13), (318653038,13), (318480194,13), (318307374,13), (318134579,13), (317961808,13),
    (317789061,13), (317616338,13), (317443639,13), (317270965,13), (317098314,13), (316925688,13), (316753087,13), (316580509,13), (316407955,13), (316235426,13), (316062921,13), (315890440,13), (315717983,13), (315545550,13), (315373142,13), (315200757,13),
    (315028397,13), (314856061,13), (314683748,13), (314511461,13), (314339197,13), (314166957,13), (313994741,13), (313822550,13), (313650382,13), (313478239,13), (313306120,13), (313134024,13), (312961953,13), (312789906,13), (312617883,13), (312445884,13),
    (312273909,13), (312101958,13), (311930031,13), (311758128,13), (311586250,13), (311414395,13), (311242564,13), (311070757,13), (310898975,13), (310727216,13), (310555481,13), (310383771,13), (310212084,13), (310040421,13), (309868782,13), (309697167,13),
    (309525577,13), (309354010,13), (309182467,13), (309010948,13), (308839453,13), (308667982,13), (308496535,13), (308325111,13), (308153712,13), (307982337,13), (307810985,13), (307639658,13), (307468354,13), (307297075,13), (307125819,13), (306954587,13),
    (306783379,13), (306612195,13), (306441034,13), (306269898,13), (306098785,13), (305927697,13), (305756632,13), (305585591,13), (305414574,13), (305243581,13), (305072611,13), (304901666,13), (304730744,13), (304559846,13), (304388972,13), (304218122,13),
    (304047295,13), (303876492,13), (303705714,13), (303534958,13), (303364227,13), (303193520,13), (303022836,13), (302852176,13), (302681540,13), (302510927,13), (302340339,13), (302169774,13), (301999233,13), (301828715,13), (301658221,13), (301487751,13),
    (301317305,13), (301146883,13), (300976484,13), (300806109,13), (300635758,13), (300465430,13), (300295126,13), (300124846,13), (299954589,13), (299784356,13), (299614147,13), (299443961,13), (299273800,13), (299103661,13), (298933547,13), (298763456,13),
    (298593389,13), (298423345,13), (298253325,13), (298083329,13), (297913356,13), (297743407,13), (297573482,13), (297403580,13), (297233702,13), (297063847,13), (296894016,13), (296724209,13), (296554425,13), (296384665,13), (296214928,13), (296045215,13),
    (295875525,13), (295705859,13), (295536217,13), (295366598,13), (295197003,13), (295027431,13), (294857883,13), (294688358,13), (294518857,13), (294349380,13), (294179926,13), (294010495,13), (293841088,13), (293671705,13), (293502345,13), (293333008,13),
    (293163695,13), (292994405,13), (292825139,13), (292655897,13), (292486678,13), (292317482,13), (292148310,13), (291979161,13), (291810036,13), (291640934,13), (291471856,13), (291302801,13), (291133769,13), (290964761,13), (290795777,13), (290626815,13),
    (290457878,13), (290288963,13), (290120072,13), (289951205,13), (289782360,13), (289613540,13), (289444742,13), (289275968,13), (289107217,13), (288938490,13), (288769786,13), (288601106,13), (288432448,13), (288263815,13), (288095204,13), (287926617,13),
    (287758053,13), (287589512,13), (287420995,13), (287252501,13), (287084031,13), (286915584,13), (286747160,13), (286578759,13), (286410382,13), (286242028,13), (286073697,13), (285905390,13), (285737106,13), (285568845,13), (285400607,13), (285232393,13),
    (285064202,13), (284896034,13), (284727889,13), (284559768,13), (284391670,13), (284223595,13), (284055543,13), (283887515,13), (283719510,13), (283551528,13), (283383569,13), (283215633,13), (283047721,13), (282879832,13), (282711966,13), (282544123,13),
    (282376303,13), (282208507,13), (282040734,13), (281872984,13), (281705257,13), (281537553,13), (281369872,13), (281202215,13), (281034581,13), (280866969,13), (280699381,13), (280531817,13), (280364275,13), (280196756,13), (280029261,13), (279861788,13),
    (279694339,13), (279526913,13), (279359509,13), (279192129,13), (279024772,13), (278857439,13), (278690128,13), (278522840,13), (278355575,13), (278188334,13), (278021115,13), (277853920,13), (277686747,13), (277519598,13), (277352472,13), (277185368,13),
    (277018288,13), (276851231,13), (276684197,13), (276517185,13), (276350197,13), (276183232,13), (276016290,13), (275849371,13), (275682474,13), (275515601,13), (275348751,13), (275181924,13), (275015119,13), (274848338,13), (274681580,13), (274514844,13),
    (274348132,13), (274181442,13), (274014776,13), (273848132,13), (273681511,13), (273514914,13), (273348339,13), (273181787,13), (273015258,13), (272848752,13), (272682269,13), (272515808,13), (272349371,13), (272182957,13), (272016565,13), (271850196,13),
    (271683850,13), (271517527,13), (271351227,13), (271184950,13), (271018696,13), (270852464,13), (270686256,13), (270520070,13), (270353907,13), (270187767,13), (270021649,13), (269855555,13), (269689483,13), (269523434,13), (269357408,13), (269191405,13),
    (269025425,13), (268859467,13), (268693532,13), (268527620,13), (268361731,13), (268195864,13), (268030021,13), (267864200,13), (267698401,13), (267532626,13), (267366873,13), (267201143,13), (267035436,13), (266869752,13), (266704090,13), (266538451,13),
    (266372835,13), (266207241,13), (266041671,13), (265876123,13), (265710597,13), (265545095,13), (265379615,13), (265214157,13), (265048723,13), (264883311,13), (264717922,13), (264552555,13), (264387211,13), (264221890,13), (264056592,13), (263891316,13),
    (263726063,13), (263560832,13), (263395624,13), (263230439,13), (263065276,13), (262900136,13), (262735019,13), (262569924,13), (262404852,13), (262239802,13), (262074775,13), (261909771,13), (261744789,13), (261579830,13), (261414893,13), (261249979,13),
    (261085088,13), (260920219,13), (260755373,13), (260590549,13), (260425748,13), (260260970,13), (260096214,13), (259931480,13), (259766769,13), (259602081,13), (259437415,13), (259272771,13), (259108151,13), (258943552,13), (258778977,13), (258614423,13),
    (258449892,13), (258285384,13), (258120898,13), (257956435,13), (257791994,13), (257627576,13), (257463180,13), (257298807,13), (257134456,13), (256970127,13), (256805821,13), (256641538,13), (256477277,13), (256313038,13), (256148822,13), (255984628,13),
    (255820457,13), (255656308,13), (255492182,13), (255328077,13), (255163996,13), (254999937,13), (254835900,13), (254671885,13), (254507893,13), (254343924,13), (254179976,13), (254016051,13), (253852149,13), (253688269,13), (253524411,13), (253360576,13),
    (253196762,13), (253032972,13), (252869203,13), (252705457,13), (252541734,13), (252378032,13), (252214353,13), (252050697,13), (251887062,13), (251723450,13), (251559861,13), (251396293,13), (251232748,13), (251069225,13), (250905725,13), (250742246,13),
    (250578790,13), (250415357,13), (250251945,13), (250088556,13), (249925189,13), (249761845,13), (249598522,13), (249435222,13), (249271944,13), (249108689,13), (248945455,13), (248782244,13), (248619055,13), (248455889,13), (248292744,13), (248129622,13),
    (247966522,13), (247803444,13), (247640388,13), (247477355,13), (247314344,13), (247151355,13), (246988388,13), (246825443,13), (246662521,13), (246499620,13), (246336742,13), (246173886,13), (246011052,13), (245848241,13), (245685451,13), (245522684,13),
    (245359939,13), (245197215,13), (245034514,13), (244871836,13), (244709179,13), (244546544,13), (244383932,13), (244221341,13), (244058773,13), (243896227,13), (243733703,13), (243571201,13), (243408721,13), (243246263,13), (243083827,13), (242921413,13),
    (242759022,13), (242596652,13), (242434304,13), (242271979,13), (242109676,13), (241947394,13), (241785135,13), (241622898,13), (241460682,13), (241298489,13), (241136318,13), (240974169,13), (240812041,13), (240649936,13), (240487853,13), (240325792,13),
    (240163753,13), (240001735,13), (239839740,13), (239677767,13), (239515816,13), (239353887,13), (239191979,13), (239030094,13), (238868230,13), (238706389,13), (238544570,13), (238382772,13), (238220996,13), (238059243,13), (237897511,13), (237735801,13),
    (237574113,13), (237412447,13), (237250803,13), (237089181,13), (236927581,13), (236766003,13), (236604446,13), (236442912,13), (236281399,13), (236119908,13), (235958440,13), (235796993,13), (235635567,13), (235474164,13), (235312783,13), (235151423,13),
    (234990085,13), (234828770,13), (234667476,13), (234506203,13), (234344953,13), (234183725,13), (234022518,13), (233861333,13), (233700170,13), (233539029,13), (233377909,13), (233216812,13), (233055736,13), (232894682,13), (232733650,13), (232572639,13),
    (232411651,13), (232250684,13), (232089739,13), (231928815,13), (231767914,13), (231607034,13), (231446176,13), (231285340,13), (231124525,13), (230963732,13), (230802961,13), (230642212,13), (230481484,13), (230320778,13), (230160094,13), (229999432,13),
    (229838791,13), (229678172,13), (229517575,13), (229356999,13), (229196445,13), (229035913,13), (228875402,13), (228714913,13), (228554446,13), (228394000,13), (228233577,13), (228073174,13), (227912794,13), (227752435,13), (227592098,13), (227431782,13),
    (227271488,13), (227111216,13), (226950965,13), (226790736,13), (226630529,13), (226470343,13), (226310178,13), (226150036,13), (225989915,13), (225829815,13), (225669738,13), (225509681,13), (225349647,13), (225189634,13), (225029642,13), (224869672,13),
    (224709724,13), (224549797,13), (224389892,13), (224230009,13), (224070147,13), (223910306,13), (223750487,13), (223590690,13), (223430914,13), (223271159,13), (223111427,13), (222951715,13), (222792025,13), (222632357,13), (222472710,13), (222313085,13),
    (222153481,13), (221993899,13), (221834338,13), (221674799,13), (221515281,13), (221355785,13), (221196310,13), (221036857,13), (220877425,13), (220718014,13), (220558625,13), (220399258,13), (220239912,13), (220080587,13), (219921284,13), (219762002,13),
    (219602742,13), (219443503,13), (219284285,13), (219125089,13), (218965915,13), (218806761,13), (218647629,13), (218488519,13), (218329430,13), (218170362,13), (218011316,13), (217852291,13), (217693288,13), (217534306,13), (217375345,13), (217216406,13),
    (217057488,13), (216898591,13), (216739716,13), (216580862,13), (216422029,13), (216263218,13), (216104428,13), (215945659,13), (215786912,13), (215628186,13), (215469481,13), (215310798,13), (215152136,13), (214993495,13), (214834876,13), (214676278,13),
    (214517701,13), (214359146,13), (214200611,13), (214042098,13), (213883607,13), (213725136,13), (213566687,13), (213408259,13), (213249853,13), (213091467,13), (212933103,13), (212774761,13), (212616439,13), (212458139,13), (212299859,13), (212141602,13),
    (211983365,13), (211825149,13), (211666955,13), (211508782,13), (211350630,13), (211192500,13), (211034390,13), (210876302,13), (210718235,13), (210560189,13), (210402165,13), (210244161,13), (210086179,13), (209928218,13), (209770278,13), (209612359,13),
    (209454461,13), (209296585,13), (209138730,13), (208980895,13), (208823082,13), (208665290,13), (208507520,13), (208349770,13), (208192041,13), (208034334,13), (207876648,13), (207718982,13), (207561338,13), (207403715,13), (207246113,13), (207088533,13),
    (206930973,13), (206773434,13), (206615917,13), (206458420,13), (206300945,13), (206143491,13), (205986057,13), (205828645,13), (205671254,13), (205513884,13), (205356535,13), (205199207,13), (205041900,13), (204884614,13), (204727349,13), (204570105,13),
    (204412883,13), (204255681,13), (204098500,13), (203941340,13), (203784201,13), (203627083,13), (203469987,13), (203312911,13), (203155856,13), (202998822,13), (202841809,13), (202684817,13), (202527847,13), (202370897,13), (202213968,13), (202057060,13),
    (201900173,13), (201743306,13), (201586461,13), (201429637,13), (201272834,13), (201116051,13), (200959290,13), (200802549,13), (200645830,13), (200489131,13), (200332453,13), (200175797,13), (200019161,13), (199862546,13), (199705951,13), (199549378,13),
    (199392826,13), (199236294,13), (199079784,13), (198923294,13), (198766825,13), (198610377,13), (198453950,13), (198297544,13), (198141158,13), (197984794,13), (197828450,13), (197672127,13), (197515825,13), (197359544,13), (197203284,13), (197047044,13),
    (196890825,13), (196734627,13), (196578450,13), (196422294,13), (196266159,13), (196110044,13), (195953950,13), (195797877,13), (195641825,13), (195485793,13), (195329782,13), (195173792,13), (195017823,13), (194861875,13), (194705947,13), (194550040,13),
    (194394154,13), (194238289,13), (194082444,13), (193926620,13), (193770817,13), (193615034,13), (193459273,13), (193303532,13), (193147811,13), (192992112,13), (192836433,13), (192680775,13), (192525137,13), (192369521,13), (192213925,13), (192058349,13),
    (191902795,13), (191747261,13), (191591747,13), (191436255,13), (191280783,13), (191125331,13), (190969901,13), (190814491,13), (190659102,13), (190503733,13), (190348385,13), (190193058,13), (190037751,13), (189882465,13), (189727199,13), (189571955,13),
    (189416730,13), (189261527,13), (189106344,13), (188951181,13), (188796040,13), (188640919,13), (188485818,13), (188330738,13), (188175679,13), (188020640,13), (187865622,13), (187710624,13), (187555647,13), (187400690,13), (187245755,13), (187090839,13),
    (186935944,13), (186781070,13), (186626216,13), (186471383,13), (186316571,13), (186161779,13), (186007007,13), (185852256,13), (185697525,13), (185542816,13), (185388126,13), (185233457,13), (185078809,13), (184924181,13), (184769573,13), (184614986,13),
    (184460420,13), (184305874,13), (184151348,13), (183996843,13), (183842359,13), (183687895,13), (183533451,13), (183379028,13), (183224625,13), (183070243,13), (182915881,13), (182761540,13), (182607219,13), (182452919,13), (182298639,13), (182144379,13),
    (181990140,13), (181835921,13), (181681723,13), (181527545,13), (181373388,13), (181219251,13), (181065134,13), (180911038,13), (180756962,13), (180602906,13), (180448871,13), (180294857,13), (180140862,13), (179986888,13), (179832935,13), (179679001,13),
    (179525089,13), (179371196,13), (179217324,13), (179063472,13), (178909641,13), (178755829,13), (178602039,13), (178448268,13), (178294518,13), (178140788,13), (177987079,13), (177833390,13), (177679721,13), (177526072,13), (177372444,13), (177218836,13),
    (177065248,13), (176911681,13), (176758134,13), (176604607,13), (176451101,13), (176297615,13), (176144149,13), (175990703,13), (175837278,13), (175683872,13), (175530488,13), (175377123,13), (175223778,13), (175070454,13), (174917150,13), (174763867,13),
    (174610603,13), (174457360,13), (174304137,13), (174150934,13), (173997752,13), (173844590,13), (173691447,13), (173538326,13), (173385224,13), (173232142,13), (173079081,13), (172926040,13), (172773019,13), (172620018,13), (172467038,13), (172314077,13),
    (172161137,13), (172008217,13), (171855317,13), (171702437,13), (171549577,13), (171396738,13), (171243919,13), (171091119,13), (170938340,13), (170785582,13), (170632843,13), (170480124,13), (170327426,13), (170174747,13), (170022089,13), (169869451,13),
    (169716833,13), (169564235,13), (169411657,13), (169259099,13), (169106561,13), (168954044,13), (168801546,13), (168649069,13), (168496611,13), (168344174,13), (168191757,13), (168039359,13), (167886982,13), (167734625,13), (167582288,13), (167429971,13),
    (167277674,13), (167125397,13), (166973140,13), (166820903,13), (166668687,13), (166516490,13), (166364313,13), (166212156,13), (166060020,13), (165907903,13), (165755806,13), (165603729,13), (165451673,13), (165299636,13), (165147619,13), (164995622,13),
    (164843645,13), (164691689,13), (164539752,13), (164387835,13), (164235938,13), (164084061,13), (163932204,13), (163780367,13), (163628550,13), (163476752,13), (163324975,13), (163173218,13), (163021480,13), (162869763,13), (162718065,13), (162566388,13),
    (162414730,13), (162263092,13), (162111475,13), (161959877,13), (161808298,13), (161656740,13), (161505202,13), (161353684,13), (161202185,13), (161050706,13), (160899248,13), (160747809,13), (160596390,13), (160444991,13), (160293611,13), (160142252,13),
    (159990912,13), (159839593,13), (159688293,13), (159537013,13), (159385753,13), (159234512,13), (159083292,13), (158932091,13), (158780910,13), (158629749,13), (158478608,13), (158327486,13), (158176385,13), (158025303,13), (157874241,13), (157723198,13),
    (157572176,13), (157421173,13), (157270190,13), (157119227,13), (156968284,13), (156817360,13), (156666457,13), (156515573,13), (156364708,13), (156213864,13), (156063039,13), (155912234,13), (155761449,13), (155610683,13), (155459937,13), (155309211,13),
    (155158505,13), (155007818,13), (154857151,13), (154706504,13), (154555877,13), (154405269,13), (154254681,13), (154104113,13), (153953564,13), (153803035,13), (153652526,13), (153502036,13), (153351566,13), (153201116,13), (153050685,13), (152900275,13),
    (152749883,13), (152599512,13), (152449160,13), (152298828,13), (152148515,13), (151998222,13), (151847949,13), (151697695,13), (151547461,13), (151397247,13), (151247052,13), (151096877,13), (150946722,13), (150796586,13), (150646469,13), (150496373,13),
    (150346296,13), (150196238,13), (150046200,13), (149896182,13), (149746183,13), (149596204,13), (149446245,13), (149296305,13), (149146384,13), (148996484,13), (148846602,13), (148696741,13), (148546899,13), (148397076,13), (148247273,13), (148097490,13),
    (147947726,13), (147797981,13), (147648257,13), (147498551,13), (147348865,13), (147199199,13), (147049553,13), (146899925,13), (146750318,13), (146600729,13), (146451161,13), (146301612,13), (146152082,13), (146002572,13), (145853081,13), (145703610,13),
    (145554158,13), (145404726,13), (145255313,13), (145105920,13), (144956546,13), (144807192,13), (144657857,13), (144508541,13), (144359245,13), (144209969,13), (144060712,13), (143911474,13), (143762256,13), (143613057,13), (143463877,13), (143314718,13),
    (143165577,13), (143016456,13), (142867354,13), (142718272,13), (142569209,13), (142420166,13), (142271142,13), (142122137,13), (141973152,13), (141824186,13), (141675239,13), (141526312,13), (141377404,13), (141228516,13), (141079647,13), (140930797,13),
    (140781967,13), (140633156,13), (140484365,13), (140335592,13), (140186839,13), (140038106,13), (139889392,13), (139740697,13), (139592021,13), (139443365,13), (139294728,13), (139146111,13), (138997512,13), (138848933,13), (138700374,13), (138551834,13),
    (138403313,13), (138254811,13), (138106328,13), (137957865,13), (137809421,13), (137660997,13), (137512592,13), (137364206,13), (137215839,13), (137067491,13), (136919163,13), (136770854,13), (136622564,13), (136474294,13), (136326043,13), (136177811,13),
    (136029598,13), (135881405,13), (135733230,13), (135585075,13), (135436940,13), (135288823,13), (135140726,13), (134992648,13), (134844589,13), (134696549,13), (134548528,13), (134400527,13), (134252545,13), (134104582,13), (133956638,13), (133808714,13),
    (133660808,13), (133512922,13), (133365055,13), (133217207,13), (133069379,13), (132921569,13), (132773779,13), (132626008,13), (132478256,13), (132330523,13), (132182809,13), (132035114,13), (131887439,13), (131739782,13), (131592145,13), (131444527,13),
    (131296928,13), (131149348,13), (131001788,13), (130854246,13), (130706723,13), (130559220,13), (130411736,13), (130264270,13), (130116824,13), (129969397,13), (129821989,13), (129674600,13), (129527231,13), (129379880,13), (129232548,13), (129085236,13),
    (128937942,13), (128790668,13), (128643412,13), (128496176,13), (128348959,13), (128201760,13), (128054581,13), (127907421,13), (127760280,13), (127613157,13), (127466054,13), (127318970,13), (127171905,13), (127024859,13), (126877832,13), (126730824,13),
    (126583835,13), (126436865,13), (126289914,13), (126142982,13), (125996069,13), (125849175,13), (125702300,13), (125555443,13), (125408606,13), (125261788,13), (125114989,13), (124968209,13), (124821447,13), (124674705,13), (124527982,13), (124381277,13),
    (124234592,13), (124087925,13), (123941278,13), (123794649,13), (123648039,13), (123501448,13), (123354876,13), (123208323,13), (123061789,13), (122915274,13), (122768778,13), (122622301,13), (122475842,13), (122329403,13), (122182982,13), (122036580,13),
    (121890197,13), (121743833,13), (121597488,13), (121451162,13), (121304854,13), (121158566,13), (121012296,13), (120866046,13), (120719814,13), (120573601,13), (120427406,13), (120281231,13), (120135074,13), (119988937,13), (119842818,13), (119696718,13),
    (119550637,13), (119404574,13), (119258531,13), (119112506,13), (118966500,13), (118820513,13), (118674544,13), (118528595,13), (118382664,13), (118236752,13), (118090859,13), (117944985,13), (117799129,13), (117653292,13), (117507474,13), (117361675,13),
    (117215895,13), (117070133,13), (116924390,13), (116778666,13), (116632961,13), (116487274,13), (116341606,13), (116195957,13), (116050326,13), (115904715,13), (115759122,13), (115613547,13), (115467992,13), (115322455,13), (115176937,13), (115031438,13),
    (114885957,13), (114740495,13), (114595052,13), (114449627,13), (114304221,13), (114158834,13), (114013466,13), (113868116,13), (113722785,13), (113577473,13), (113432179,13), (113286904,13), (113141647,13), (112996410,13), (112851191,13), (112705990,13),
    (112560808,13), (112415645,13), (112270501,13), (112125375,13), (111980268,13), (111835179,13), (111690109,13), (111545058,13), (111400025,13), (111255011,13), (111110016,13), (110965039,13), (110820081,13), (110675141,13), (110530220,13), (110385318,13),
    (110240434,13), (110095569,13), (109950722,13), (109805894,13), (109661085,13), (109516294,13), (109371522,13), (109226768,13), (109082033,13), (108937316,13), (108792618,13), (108647939,13), (108503278,13), (108358636,13), (108214012,13), (108069406,13),
    (107924820,13), (107780252,13), (107635702,13), (107491171,13), (107346658,13), (107202164,13), (107057688,13), (106913231,13), (106768793,13), (106624373,13), (106479971,13), (106335588,13), (106191224,13), (106046878,13), (105902550,13), (105758241,13),
    (105613950,13), (105469678,13), (105325425,13), (105181189,13), (105036973,13), (104892775,13), (104748595,13), (104604433,13), (104460291,13), (104316166,13), (104172060,13), (104027973,13), (103883904,13), (103739853,13), (103595821,13), (103451807,13),
    (103307812,13), (103163835,13), (103019876,13), (102875936,13), (102732014,13), (102588111,13), (102444226,13), (102300360,13), (102156512,13), (102012682,13), (101868871,13), (101725078,13), (101581303,13), (101437547,13), (101293809,13), (101150090,13),
    (101006389,13), (100862706,13), (100719042,13), (100575396,13), (100431768,13), (100288159,13), (100144568,13), (100000996,13), (99857441,13), (99713906,13), (99570388,13), (99426889,13), (99283408,13), (99139945,13), (98996501,13), (98853075,13),
    (98709668,13), (98566278,13), (98422907,13), (98279555,13), (98136220,13), (97992904,13), (97849606,13), (97706327,13), (97563066,13), (97419823,13), (97276598,13), (97133392,13), (96990204,13), (96847034,13), (96703882,13), (96560749,13),
    (96417634,13), (96274537,13), (96131458,13), (95988398,13), (95845356,13), (95702332,13), (95559326,13), (95416339,13), (95273370,13), (95130419,13), (94987486,13), (94844572,13), (94701676,13), (94558797,13), (94415938,13), (94273096,13),
    (94130273,13), (93987467,13), (93844680,13), (93701911,13), (93559161,13), (93416428,13), (93273714,13), (93131018,13), (92988340,13), (92845680,13), (92703038,13), (92560415,13), (92417810,13), (92275223,13), (92132654,13), (91990103,13),
    (91847570,13), (91705055,13), (91562559,13), (91420081,13), (91277621,13), (91135179,13), (90992755,13), (90850349,13), (90707961,13), (90565592,13), (90423240,13), (90280907,13), (90138592,13), (89996295,13), (89854016,13), (89711755,13),
    (89569512,13), (89427287,13), (89285080,13), (89142892,13), (89000721,13), (88858569,13), (88716434,13), (88574318,13), (88432220,13), (88290140,13), (88148078,13), (88006033,13), (87864007,13), (87721999,13), (87580010,13), (87438038,13),
    (87296084,13), (87154148,13), (87012230,13), (86870330,13), (86728449,13), (86586585,13), (86444739,13), (86302911,13), (86161102,13), (86019310,13), (85877536,13), (85735781,13), (85594043,13), (85452323,13), (85310621,13), (85168938,13),
    (85027272,13), (84885624,13), (84743994,13), (84602382,13), (84460788,13), (84319213,13), (84177655,13), (84036115,13), (83894593,13), (83753088,13), (83611602,13), (83470134,13), (83328684,13), (83187251,13), (83045837,13), (82904441,13),
    (82763062,13), (82621701,13), (82480359,13), (82339034,13), (82197727,13), (82056438,13), (81915167,13), (81773914,13), (81632678,13), (81491461,13), (81350262,13), (81209080,13), (81067916,13), (80926770,13), (80785642,13), (80644532,13),
    (80503440,13), (80362366,13), (80221309,13), (80080271,13), (79939250,13), (79798247,13), (79657262,13), (79516295,13), (79375345,13), (79234414,13), (79093500,13), (78952604,13), (78811726,13), (78670866,13), (78530024,13), (78389199,13),
    (78248393,13), (78107604,13), (77966833,13), (77826079,13), (77685344,13), (77544626,13), (77403926,13), (77263244,13), (77122580,13), (76981933,13), (76841304,13), (76700693,13), (76560100,13), (76419525,13), (76278967,13), (76138427,13),
    (75997905,13), (75857401,13), (75716914,13), (75576445,13), (75435994,13), (75295561,13), (75155145,13), (75014747,13), (74874367,13), (74734005,13), (74593660,13), (74453333,13), (74313024,13), (74172732,13), (74032459,13), (73892203,13),
    (73751964,13), (73611744,13), (73471541,13), (73331355,13), (73191188,13), (73051038,13), (72910906,13), (72770791,13), (72630694,13), (72490615,13), (72350554,13), (72210510,13), (72070484,13), (71930475,13), (71790485,13), (71650511,13),
    (71510556,13), (71370618,13), (71230698,13), (71090795,13), (70950910,13), (70811043,13), (70671194,13), (70531362,13), (70391547,13), (70251750,13), (70111971,13), (69972210,13), (69832466,13), (69692740,13), (69553031,13), (69413340,13),
    (69273667,13), (69134011,13), (68994372,13), (68854752,13), (68715149,13), (68575563,13), (68435995,13), (68296445,13), (68156912,13), (68017397,13), (67877899,13), (67738419,13), (67598957,13), (67459512,13), (67320085,13), (67180675,13),
    (67041283,13), (66901908,13), (66762551,13), (66623211,13), (66483889,13), (66344584,13), (66205297,13), (66066028,13), (65926776,13), (65787541,13), (65648324,13), (65509125,13), (65369943,13), (65230779,13), (65091632,13), (64952502,13),
    (64813390,13), (64674296,13), (64535219,13), (64396159,13), (64257117,13), (64118093,13), (63979086,13), (63840096,13), (63701124,13), (63562170,13), (63423233,13), (63284313,13), (63145411,13), (63006526,13), (62867658,13), (62728809,13),
    (62589976,13), (62451161,13), (62312364,13), (62173583,13), (62034821,13), (61896076,13), (61757348,13), (61618637,13), (61479944,13), (61341269,13), (61202610,13), (61063970,13), (60925346,13), (60786740,13), (60648152,13), (60509581,13),
    (60371027,13), (60232490,13), (60093971,13), (59955470,13), (59816985,13), (59678519,13), (59540069,13), (59401637,13), (59263222,13), (59124825,13), (58986445,13), (58848082,13), (58709737,13), (58571409,13), (58433098,13), (58294805,13),
    (58156529,13), (58018270,13), (57880029,13), (57741805,13), (57603598,13), (57465409,13), (57327237,13), (57189082,13), (57050945,13), (56912824,13), (56774722,13), (56636636,13), (56498568,13), (56360517,13), (56222484,13), (56084467,13),
    (55946468,13), (55808487,13), (55670522,13), (55532575,13), (55394645,13), (55256732,13), (55118837,13), (54980959,13), (54843098,13), (54705255,13), (54567428,13), (54429619,13), (54291827,13), (54154053,13), (54016295,13), (53878555,13),
    (53740833,13), (53603127,13), (53465439,13), (53327767,13), (53190113,13), (53052477,13), (52914857,13), (52777255,13), (52639670,13), (52502102,13), (52364551,13), (52227018,13), (52089501,13), (51952002,13), (51814520,13), (51677056,13),
    (51539608,13), (51402178,13), (51264765,13), (51127368,13), (50989990,13), (50852628,13), (50715283,13), (50577956,13), (50440646,13), (50303353,13), (50166077,13), (50028818,13), (49891577,13), (49754352,13), (49617145,13), (49479955,13),
    (49342782,13), (49205626,13), (49068487,13), (48931365,13), (48794261,13), (48657173,13), (48520103,13), (48383050,13), (48246014,13), (48108995,13), (47971993,13), (47835008,13), (47698040,13), (47561089,13), (47424156,13), (47287239,13),
    (47150340,13), (47013458,13), (46876593,13), (46739744,13), (46602913,13), (46466099,13), (46329302,13), (46192522,13), (46055760,13), (45919014,13), (45782285,13), (45645573,13), (45508879,13), (45372201,13), (45235540,13), (45098897,13),
    (44962270,13), (44825661,13), (44689068,13), (44552493,13), (44415934,13), (44279393,13), (44142869,13), (44006361,13), (43869871,13), (43733397,13), (43596941,13), (43460502,13), (43324079,13), (43187674,13), (43051285,13), (42914914,13),
    (42778559,13), (42642222,13), (42505901,13), (42369598,13), (42233311,13), (42097041,13), (41960789,13), (41824553,13), (41688334,13), (41552132,13), (41415947,13), (41279779,13), (41143628,13), (41007494,13), (40871377,13), (40735277,13),
    (40599194,13), (40463128,13), (40327078,13), (40191046,13), (40055030,13), (39919031,13), (39783050,13), (39647085,13), (39511137,13), (39375206,13), (39239292,13), (39103394,13), (38967514,13), (38831650,13), (38695804,13), (38559974,13),
    (38424161,13), (38288365,13), (38152586,13), (38016824,13), (37881079,13), (37745350,13), (37609638,13), (37473944,13), (37338266,13), (37202605,13), (37066960,13), (36931333,13), (36795722,13), (36660129,13), (36524552,13), (36388992,13),
    (36253448,13), (36117922,13), (35982412,13), (35846920,13), (35711444,13), (35575984,13), (35440542,13), (35305117,13), (35169708,13), (35034316,13), (34898941,13), (34763582,13), (34628241,13), (34492916,13), (34357608,13), (34222317,13),
    (34087043,13), (33951785,13), (33816544,13), (33681320,13), (33546113,13), (33410922,13), (33275748,13), (33140591,13), (33005451,13), (32870327,13), (32735220,13), (32600130,13), (32465057,13), (32330000,13), (32194960,13), (32059937,13),
    (31924931,13), (31789941,13), (31654968,13), (31520012,13), (31385072,13), (31250150,13), (31115243,13), (30980354,13), (30845481,13), (30710625,13), (30575786,13), (30440963,13), (30306157,13), (30171368,13), (30036596,13), (29901840,13),
    (29767101,13), (29632378,13), (29497672,13), (29362983,13), (29228310,13), (29093655,13), (28959015,13), (28824393,13), (28689787,13), (28555198,13), (28420625,13), (28286069,13), (28151530,13), (28017007,13), (27882501,13), (27748012,13),
    (27613539,13), (27479083,13), (27344643,13), (27210220,13), (27075814,13), (26941424,13), (26807051,13), (26672695,13), (26538355,13), (26404032,13), (26269725,13), (26135435,13), (26001162,13), (25866905,13), (25732664,13), (25598441,13),
    (25464233,13), (25330043,13), (25195869,13), (25061711,13), (24927571,13), (24793446,13), (24659339,13), (24525247,13), (24391173,13), (24257115,13), (24123073,13), (23989048,13), (23855040,13), (23721048,13), (23587073,13), (23453114,13),
    (23319171,13), (23185246,13), (23051336,13), (22917444,13), (22783567,13), (22649708,13), (22515865,13), (22382038,13), (22248228,13), (22114434,13), (21980657,13), (21846896,13), (21713152,13), (21579424,13), (21445713,13), (21312018,13),
    (21178340,13), (21044678,13), (20911033,13), (20777404,13), (20643792,13), (20510196,13), (20376617,13), (20243054,13), (20109507,13), (19975977,13), (19842464,13), (19708967,13), (19575486,13), (19442022,13), (19308574,13), (19175142,13),
    (19041727,13), (18908329,13), (18774947,13), (18641581,13), (18508232,13), (18374899,13), (18241583,13), (18108283,13), (17974999,13), (17841732,13), (17708481,13), (17575247,13), (17442029,13), (17308827,13), (17175642,13), (17042473,13),
    (16909321,13), (16776185,13), (16643065,13), (16509962,13), (16376875,13), (16243804,13), (16110750,13), (15977712,13), (15844690,13), (15711685,13), (15578697,13), (15445724,13), (15312768,13), (15179828,13), (15046905,13), (14913998,13),
    (14781107,13), (14648233,13), (14515375,13), (14382533,13), (14249708,13), (14116899,13), (13984106,13), (13851329,13), (13718569,13), (13585825,13), (13453098,13), (13320387,13), (13187692,13), (13055013,13), (12922351,13), (12789705,13),
    (12657075,13), (12524462,13), (12391864,13), (12259283,13), (12126719,13), (11994171,13), (11861638,13), (11729123,13), (11596623,13), (11464140,13), (11331673,13), (11199222,13), (11066787,13), (10934369,13), (10801967,13), (10669581,13),
    (10537212,13), (10404858,13), (10272521,13), (10140200,13), (10007896,13), (9875607,13), (9743335,13), (9611079,13), (9478840,13), (9346616,13), (9214409,13), (9082218,13), (8950043,13), (8817884,13), (8685741,13), (8553615,13),
    (8421505,13), (8289411,13), (8157333,13), (8025272,13), (7893226,13), (7761197,13), (7629184,13), (7497187,13), (7365207,13), (7233242,13), (7101294,13), (6969361,13), (6837445,13), (6705545,13), (6573662,13), (6441794,13),
    (6309943,13), (6178107,13), (6046288,13), (5914485,13), (5782698,13), (5650927,13), (5519173,13), (5387434,13), (5255712,13), (5124006,13), (4992315,13), (4860641,13), (4728983,13), (4597341,13), (4465716,13), (4334106,13),
    (4202513,13), (4070935,13), (3939374,13), (3807828,13), (3676299,13), (3544786,13), (3413289,13), (3281808,13), (3150343,13), (3018894,13), (2887462,13), (2756045,13), (2624644,13), (2493260,13), (2361891,13), (2230539,13),
    (2099203,13), (1967882,13), (1836578,13), (1705290,13), (1574017,13), (1442761,13), (1311521,13), (1180297,13), (1049089,13), (917897,13), (786721,13), (655561,13), (524417,13), (393289,13), (262177,13), (131081,13),
    (2147483649,14), (2147221520,14), (2146959424,14), (2146697360,14), (2146435328,14), (2146173328,14), (2145911360,14), (2145649424,14), (2145387520,14), (2145125648,14), (2144863808,14), (2144601999,14), (2144340223,14), (2144078478,14), (2143816766,14), (2143555085,14),
    (2143293437,14), (2143031820,14), (2142770235,14), (2142508682,14), (2142247161,14), (2141985671,14), (2141724214,14), (2141462789,14), (2141201395,14), (2140940033,14), (2140678703,14), (2140417405,14), (2140156139,14), (2139894905,14), (2139633702,14), (2139372531,14),
    (2139111393,14), (2138850285,14), (2138589210,14), (2138328167,14), (2138067155,14), (2137806175,14), (2137545227,14), (2137284311,14), (2137023426,14), (2136762573,14), (2136501752,14), (2136240963,14), (2135980206,14), (2135719480,14), (2135458786,14), (2135198123,14),
    (2134937493,14), (2134676894,14), (2134416327,14), (2134155791,14), (2133895288,14), (2133634816,14), (2133374375,14), (2133113967,14), (2132853590,14), (2132593244,14), (2132332931,14), (2132072649,14), (2131812398,14), (2131552180,14), (2131291993,14), (2131031837,14),
    (2130771713,14), (2130511621,14), (2130251561,14), (2129991532,14), (2129731535,14), (2129471569,14), (2129211635,14), (2128951732,14), (2128691862,14), (2128432022,14), (2128172215,14), (2127912438,14), (2127652694,14), (2127392981,14), (2127133299,14), (2126873649,14),
    (2126614031,14), (2126354444,14), (2126094889,14), (2125835365,14), (2125575873,14), (2125316412,14), (2125056983,14), (2124797585,14), (2124538219,14), (2124278884,14), (2124019580,14), (2123760309,14), (2123501068,14), (2123241859,14), (2122982682,14), (2122723536,14),
    (2122464422,14), (2122205338,14), (2121946287,14), (2121687267,14), (2121428278,14), (2121169321,14), (2120910395,14), (2120651500,14), (2120392637,14), (2120133805,14), (2119875005,14), (2119616236,14), (2119357498,14), (2119098792,14), (2118840117,14), (2118581474,14),
    (2118322862,14), (2118064281,14), (2117805732,14), (2117547214,14), (2117288727,14), (2117030272,14), (2116771847,14), (2116513455,14), (2116255093,14), (2115996763,14), (2115738464,14), (2115480197,14), (2115221961,14), (2114963756,14), (2114705582,14), (2114447440,14),
    (2114189328,14), (2113931249,14), (2113673200,14), (2113415183,14), (2113157196,14), (2112899242,14), (2112641318,14), (2112383425,14), (2112125564,14), (2111867734,14), (2111609935,14), (2111352168,14), (2111094432,14), (2110836726,14), (2110579052,14), (2110321410,14),
    (2110063798,14), (2109806217,14), (2109548668,14), (2109291150,14), (2109033663,14), (2108776207,14), (2108518783,14), (2108261389,14), (2108004027,14), (2107746695,14), (2107489395,14), (2107232126,14), (2106974888,14), (2106717681,14), (2106460505,14), (2106203361,14),
    (2105946247,14), (2105689165,14), (2105432113,14), (2105175093,14), (2104918104,14), (2104661145,14), (2104404218,14), (2104147322,14), (2103890457,14), (2103633623,14), (2103376820,14), (2103120048,14), (2102863307,14), (2102606597,14), (2102349918,14), (2102093270,14),
    (2101836653,14), (2101580067,14), (2101323512,14), (2101066988,14), (2100810495,14), (2100554033,14), (2100297602,14), (2100041202,14), (2099784833,14), (2099528494,14), (2099272187,14), (2099015911,14), (2098759665,14), (2098503451,14), (2098247267,14), (2097991114,14),
    (2097734993,14), (2097478902,14), (2097222842,14), (2096966813,14), (2096710814,14), (2096454847,14), (2096198911,14), (2095943005,14), (2095687130,14), (2095431286,14), (2095175473,14), (2094919691,14), (2094663940,14), (2094408219,14), (2094152530,14), (2093896871,14),
    (2093641243,14), (2093385645,14), (2093130079,14), (2092874543,14), (2092619039,14), (2092363565,14), (2092108121,14), (2091852709,14), (2091597327,14), (2091341976,14), (2091086656,14), (2090831367,14), (2090576108,14), (2090320880,14), (2090065683,14), (2089810516,14),
    (2089555381,14), (2089300276,14), (2089045201,14), (2088790158,14), (2088535145,14), (2088280163,14), (2088025211,14), (2087770290,14), (2087515400,14), (2087260541,14), (2087005712,14), (2086750914,14), (2086496147,14), (2086241410,14), (2085986704,14), (2085732028,14),
    (2085477383,14), (2085222769,14), (2084968186,14), (2084713633,14), (2084459110,14), (2084204619,14), (2083950158,14), (2083695727,14), (2083441327,14), (2083186958,14), (2082932619,14), (2082678311,14), (2082424033,14), (2082169786,14), (2081915570,14), (2081661384,14),
    (2081407229,14), (2081153104,14), (2080899009,14), (2080644946,14), (2080390913,14), (2080136910,14), (2079882938,14), (2079628996,14), (2079375085,14), (2079121204,14), (2078867354,14), (2078613535,14), (2078359745,14), (2078105987,14), (2077852258,14), (2077598561,14),
    (2077344893,14), (2077091257,14), (2076837650,14), (2076584074,14), (2076330529,14), (2076077014,14), (2075823529,14), (2075570075,14), (2075316651,14), (2075063258,14), (2074809895,14), (2074556562,14), (2074303260,14), (2074049988,14), (2073796747,14), (2073543536,14),
    (2073290355,14), (2073037205,14), (2072784085,14), (2072530996,14), (2072277937,14), (2072024908,14), (2071771909,14), (2071518941,14), (2071266003,14), (2071013096,14), (2070760219,14), (2070507372,14), (2070254555,14), (2070001769,14), (2069749013,14), (2069496288,14),
    (2069243592,14), (2068990927,14), (2068738292,14), (2068485688,14), (2068233114,14), (2067980570,14), (2067728056,14), (2067475572,14), (2067223119,14), (2066970696,14), (2066718303,14), (2066465941,14), (2066213609,14), (2065961307,14), (2065709035,14), (2065456793,14),
    (2065204582,14), (2064952400,14), (2064700249,14), (2064448128,14), (2064196038,14), (2063943977,14), (2063691947,14), (2063439946,14), (2063187976,14), (2062936036,14), (2062684127,14), (2062432247,14), (2062180398,14), (2061928578,14), (2061676789,14), (2061425030,14),
    (2061173301,14), (2060921602,14), (2060669933,14), (2060418295,14), (2060166686,14), (2059915108,14), (2059663559,14), (2059412041,14), (2059160553,14), (2058909094,14), (2058657666,14), (2058406268,14), (2058154900,14), (2057903562,14), (2057652254,14), (2057400976,14),
    (2057149728,14), (2056898510,14), (2056647323,14), (2056396165,14), (2056145037,14), (2055893939,14), (2055642871,14), (2055391833,14), (2055140826,14), (2054889848,14), (2054638900,14), (2054387982,14), (2054137094,14), (2053886236,14), (2053635408,14), (2053384610,14),
    (2053133842,14), (2052883103,14), (2052632395,14), (2052381717,14), (2052131068,14), (2051880450,14), (2051629861,14), (2051379302,14), (2051128774,14), (2050878275,14), (2050627806,14), (2050377366,14), (2050126957,14), (2049876578,14), (2049626228,14), (2049375909,14),
    (2049125619,14), (2048875359,14), (2048625129,14), (2048374928,14), (2048124758,14), (2047874617,14), (2047624507,14), (2047374426,14), (2047124375,14), (2046874353,14), (2046624362,14), (2046374400,14), (2046124468,14), (2045874566,14), (2045624693,14), (2045374851,14),
    (2045125038,14), (2044875255,14), (2044625502,14), (2044375778,14), (2044126084,14), (2043876420,14), (2043626786,14), (2043377181,14), (2043127607,14), (2042878061,14), (2042628546,14), (2042379060,14), (2042129604,14), (2041880178,14), (2041630781,14), (2041381415,14),
    (2041132077,14), (2040882770,14), (2040633492,14), (2040384244,14), (2040135025,14), (2039885836,14), (2039636677,14), (2039387548,14), (2039138448,14), (2038889378,14), (2038640337,14), (2038391326,14), (2038142345,14), (2037893393,14), (2037644471,14), (2037395578,14),
    (2037146715,14), (2036897882,14), (2036649078,14), (2036400304,14), (2036151559,14), (2035902844,14), (2035654159,14), (2035405503,14), (2035156877,14), (2034908280,14), (2034659713,14), (2034411175,14), (2034162667,14), (2033914188,14), (2033665739,14), (2033417320,14),
    (2033168930,14), (2032920569,14), (2032672238,14), (2032423937,14), (2032175665,14), (2031927422,14), (2031679209,14), (2031431025,14), (2031182871,14), (2030934747,14), (2030686652,14), (2030438586,14), (2030190550,14), (2029942543,14), (2029694566,14), (2029446618,14),
    (2029198699,14), (2028950810,14), (2028702951,14), (2028455120,14), (2028207320,14), (2027959548,14), (2027711806,14), (2027464094,14), (2027216411,14), (2026968757,14), (2026721132,14), (2026473537,14), (2026225972,14), (2025978435,14), (2025730928,14), (2025483451,14),
    (2025236003,14), (2024988584,14), (2024741194,14), (2024493834,14), (2024246503,14), (2023999201,14), (2023751929,14), (2023504686,14), (2023257473,14), (2023010288,14), (2022763133,14), (2022516007,14), (2022268911,14), (2022021844,14), (2021774806,14), (2021527797,14),
    (2021280818,14), (2021033868,14), (2020786947,14), (2020540055,14), (2020293193,14), (2020046360,14), (2019799556,14), (2019552782,14), (2019306036,14), (2019059320,14), (2018812633,14), (2018565975,14), (2018319347,14), (2018072747,14), (2017826177,14), (2017579636,14),
    (2017333124,14), (2017086642,14), (2016840188,14), (2016593764,14), (2016347369,14), (2016101003,14), (2015854666,14), (2015608359,14), (2015362080,14), (2015115831,14), (2014869610,14), (2014623419,14), (2014377257,14), (2014131124,14), (2013885021,14), (2013638946,14),
    (2013392900,14), (2013146884,14), (2012900897,14), (2012654938,14), (2012409009,14), (2012163109,14), (2011917238,14), (2011671396,14), (2011425583,14), (2011179799,14), (2010934044,14), (2010688318,14), (2010442622,14), (2010196954,14), (2009951315,14), (2009705705,14),
    (2009460125,14), (2009214573,14), (2008969051,14), (2008723557,14), (2008478092,14), (2008232657,14), (2007987250,14), (2007741872,14), (2007496524,14), (2007251204,14), (2007005913,14), (2006760651,14), (2006515418,14), (2006270215,14), (2006025040,14), (2005779894,14),
    (2005534777,14), (2005289688,14), (2005044629,14), (2004799599,14), (2004554598,14), (2004309625,14), (2004064682,14), (2003819767,14), (2003574881,14), (2003330024,14), (2003085196,14), (2002840397,14), (2002595627,14), (2002350886,14), (2002106173,14), (2001861489,14),
    (2001616835,14), (2001372209,14), (2001127612,14), (2000883043,14), (2000638504,14), (2000393993,14), (2000149512,14), (1999905059,14), (1999660635,14), (1999416239,14), (1999171873,14), (1998927535,14), (1998683226,14), (1998438946,14), (1998194695,14), (1997950472,14),
    (1997706278,14), (1997462113,14), (1997217977,14), (1996973869,14), (1996729791,14), (1996485741,14), (1996241719,14), (1995997727,14), (1995753763,14), (1995509828,14), (1995265921,14), (1995022044,14), (1994778195,14), (1994534375,14), (1994290583,14), (1994046820,14),
    (1993803086,14), (1993559381,14), (1993315704,14), (1993072056,14), (1992828436,14), (1992584846,14), (1992341284,14), (1992097750,14), (1991854245,14), (1991610769,14), (1991367322,14), (1991123903,14), (1990880513,14), (1990637151,14), (1990393818,14), (1990150514,14),
    (1989907238,14), (1989663991,14), (1989420772,14), (1989177582,14), (1988934421,14), (1988691288,14), (1988448184,14), (1988205108,14), (1987962061,14), (1987719043,14), (1987476053,14), (1987233091,14), (1986990158,14), (1986747254,14), (1986504378,14), (1986261531,14),
    (1986018713,14), (1985775922,14), (1985533161,14), (1985290428,14), (1985047723,14), (1984805047,14), (1984562399,14), (1984319780,14), (1984077190,14), (1983834627,14), (1983592094,14), (1983349589,14), (1983107112,14), (1982864664,14), (1982622244,14), (1982379853,14),
    (1982137490,14), (1981895155,14), (1981652849,14), (1981410572,14), (1981168323,14), (1980926102,14), (1980683910,14), (1980441746,14), (1980199610,14), (1979957503,14), (1979715425,14), (1979473374,14), (1979231352,14), (1978989359,14), (1978747394,14), (1978505457,14),
    (1978263549,14), (1978021669,14), (1977779817,14), (1977537994,14), (1977296199,14), (1977054432,14), (1976812694,14), (1976570984,14), (1976329302,14), (1976087649,14), (1975846024,14), (1975604428,14), (1975362859,14), (1975121319,14), (1974879808,14), (1974638324,14),
    (1974396869,14), (1974155442,14), (1973914044,14), (1973672673,14), (1973431331,14), (1973190018,14), (1972948732,14), (1972707475,14), (1972466246,14), (1972225045,14), (1971983873,14), (1971742728,14), (1971501612,14), (1971260524,14), (1971019465,14), (1970778433,14),
    (1970537430,14), (1970296455,14), (1970055509,14), (1969814590,14), (1969573700,14), (1969332837,14), (1969092003,14), (1968851198,14), (1968610420,14), (1968369670,14), (1968128949,14), (1967888256,14), (1967647591,14), (1967406954,14), (1967166345,14), (1966925765,14),
    (1966685212,14), (1966444688,14), (1966204192,14), (1965963724,14), (1965723284,14), (1965482872,14), (1965242488,14), (1965002132,14), (1964761805,14), (1964521505,14), (1964281234,14), (1964040990,14), (1963800775,14), (1963560588,14), (1963320429,14), (1963080298,14),
    (1962840195,14), (1962600120,14), (1962360073,14), (1962120054,14), (1961880063,14), (1961640100,14), (1961400165,14), (1961160258,14), (1960920380,14), (1960680529,14), (1960440706,14), (1960200911,14), (1959961145,14), (1959721406,14), (1959481695,14), (1959242012,14),
    (1959002357,14), (1958762730,14), (1958523131,14), (1958283560,14), (1958044017,14), (1957804502,14), (1957565015,14), (1957325556,14), (1957086125,14), (1956846722,14), (1956607346,14), (1956367999,14), (1956128679,14), (1955889388,14), (1955650124,14), (1955410888,14),
    (1955171680,14), (1954932500,14), (1954693348,14), (1954454224,14), (1954215127,14), (1953976059,14), (1953737018,14), (1953498005,14), (1953259020,14), (1953020063,14), (1952781134,14), (1952542232,14), (1952303359,14), (1952064513,14), (1951825695,14), (1951586905,14),
    (1951348143,14), (1951109408,14), (1950870702,14), (1950632023,14), (1950393372,14), (1950154749,14), (1949916153,14), (1949677586,14), (1949439046,14), (1949200534,14), (1948962049,14), (1948723593,14), (1948485164,14), (1948246763,14), (1948008389,14), (1947770044,14),
    (1947531726,14), (1947293436,14), (1947055173,14), (1946816939,14), (1946578732,14), (1946340553,14), (1946102401,14), (1945864277,14), (1945626181,14), (1945388113,14), (1945150072,14), (1944912059,14), (1944674074,14), (1944436116,14), (1944198186,14), (1943960284,14),
    (1943722409,14), (1943484562,14), (1943246743,14), (1943008951,14), (1942771187,14), (1942533451,14), (1942295742,14), (1942058061,14), (1941820407,14), (1941582782,14), (1941345183,14), (1941107613,14), (1940870070,14), (1940632554,14), (1940395066,14), (1940157606,14),
    (1939920173,14), (1939682768,14), (1939445391,14), (1939208041,14), (1938970718,14), (1938733423,14), (1938496156,14), (1938258916,14), (1938021704,14), (1937784520,14), (1937547362,14), (1937310233,14), (1937073131,14), (1936836056,14), (1936599009,14), (1936361990,14),
    (1936124998,14), (1935888033,14), (1935651096,14), (1935414187,14), (1935177305,14), (1934940451,14), (1934703624,14), (1934466824,14), (1934230052,14), (1933993307,14), (1933756590,14), (1933519900,14), (1933283238,14), (1933046603,14), (1932809996,14), (1932573416,14),
    (1932336864,14), (1932100339,14), (1931863841,14), (1931627371,14), (1931390928,14), (1931154513,14), (1930918125,14), (1930681764,14), (1930445431,14), (1930209125,14), (1929972847,14), (1929736596,14), (1929500372,14), (1929264176,14), (1929028007,14), (1928791865,14),
    (1928555751,14), (1928319664,14), (1928083605,14), (1927847573,14), (1927611568,14), (1927375590,14), (1927139640,14), (1926903717,14), (1926667822,14), (1926431954,14), (1926196113,14), (1925960299,14), (1925724513,14), (1925488754,14), (1925253022,14), (1925017318,14),
    (1924781641,14), (1924545991,14), (1924310368,14), (1924074773,14), (1923839205,14), (1923603664,14), (1923368150,14), (1923132664,14), (1922897205,14), (1922661773,14), (1922426369,14), (1922190991,14), (1921955641,14), (1921720318,14), (1921485022,14), (1921249754,14),
    (1921014513,14), (1920779299,14), (1920544112,14), (1920308952,14), (1920073819,14), (1919838714,14), (1919603636,14), (1919368585,14), (1919133561,14), (1918898564,14), (1918663595,14), (1918428653,14), (1918193737,14), (1917958849,14), (1917723988,14), (1917489155,14),
    (1917254348,14), (1917019568,14), (1916784816,14), (1916550091,14), (1916315393,14), (1916080721,14), (1915846078,14), (1915611461,14), (1915376871,14), (1915142308,14), (1914907773,14), (1914673264,14), (1914438783,14), (1914204328,14), (1913969901,14), (1913735501,14),
    (1913501127,14), (1913266781,14), (1913032462,14), (1912798170,14), (1912563905,14), (1912329667,14), (1912095456,14), (1911861272,14), (1911627115,14), (1911392985,14), (1911158882,14), (1910924806,14), (1910690757,14), (1910456735,14), (1910222740,14), (1909988772,14),
    (1909754831,14), (1909520917,14), (1909287030,14), (1909053170,14), (1908819337,14), (1908585531,14), (1908351752,14), (1908118000,14), (1907884274,14), (1907650576,14), (1907416904,14), (1907183260,14), (1906949642,14), (1906716052,14), (1906482488,14), (1906248951,14),
    (1906015441,14), (1905781958,14), (1905548502,14), (1905315073,14), (1905081670,14), (1904848295,14), (1904614946,14), (1904381624,14), (1904148330,14), (1903915062,14), (1903681820,14), (1903448606,14), (1903215419,14), (1902982258,14), (1902749124,14), (1902516017,14),
    (1902282937,14), (1902049884,14), (1901816858,14), (1901583858,14), (1901350885,14), (1901117939,14), (1900885020,14), (1900652128,14), (1900419262,14), (1900186423,14), (1899953611,14), (1899720826,14), (1899488067,14), (1899255336,14), (1899022631,14), (1898789953,14),
    (1898557301,14), (1898324676,14), (1898092078,14), (1897859507,14), (1897626963,14), (1897394445,14), (1897161954,14), (1896929490,14), (1896697052,14), (1896464642,14), (1896232257,14), (1895999900,14), (1895767569,14), (1895535265,14), (1895302988,14), (1895070737,14),
    (1894838513,14), (1894606316,14), (1894374146,14), (1894142002,14), (1893909884,14), (1893677794,14), (1893445730,14), (1893213693,14), (1892981682,14), (1892749698,14), (1892517741,14), (1892285810,14), (1892053906,14), (1891822028,14), (1891590177,14), (1891358353,14),
    (1891126556,14), (1890894785,14), (1890663040,14), (1890431322,14), (1890199631,14), (1889967966,14), (1889736328,14), (1889504717,14), (1889273132,14), (1889041573,14), (1888810042,14), (1888578536,14), (1888347058,14), (1888115606,14), (1887884180,14), (1887652781,14),
    (1887421409,14), (1887190063,14), (1886958743,14), (1886727450,14), (1886496184,14), (1886264944,14), (1886033731,14), (1885802544,14), (1885571383,14), (1885340249,14), (1885109142,14), (1884878061,14), (1884647007,14), (1884415979,14), (1884184977,14), (1883954002,14),
    (1883723054,14), (1883492132,14), (1883261236,14), (1883030367,14), (1882799524,14), (1882568708,14), (1882337918,14), (1882107155,14), (1881876418,14), (1881645707,14), (1881415023,14), (1881184365,14), (1880953734,14), (1880723129,14), (1880492550,14), (1880261998,14),
    (1880031473,14), (1879800973,14), (1879570500,14), (1879340054,14), (1879109633,14), (1878879240,14), (1878648872,14), (1878418531,14), (1878188216,14), (1877957928,14), (1877727666,14), (1877497430,14), (1877267221,14), (1877037038,14), (1876806881,14), (1876576750,14),
    (1876346646,14), (1876116569,14), (1875886517,14), (1875656492,14), (1875426493,14), (1875196520,14), (1874966574,14), (1874736654,14), (1874506760,14), (1874276893,14), (1874047052,14), (1873817237,14), (1873587448,14), (1873357686,14), (1873127950,14), (1872898240,14),
    (1872668556,14), (1872438899,14), (1872209268,14), (1871979663,14), (1871750084,14), (1871520532,14), (1871291006,14), (1871061506,14), (1870832032,14), (1870602584,14), (1870373163,14), (1870143768,14), (1869914399,14), (1869685056,14), (1869455739,14), (1869226449,14),
    (1868997185,14), (1868767946,14), (1868538735,14), (1868309549,14), (1868080389,14), (1867851256,14), (1867622148,14), (1867393067,14), (1867164012,14), (1866934983,14), (1866705980,14), (1866477004,14), (1866248053,14), (1866019129,14), (1865790231,14), (1865561358,14),
    (1865332512,14), (1865103692,14), (1864874898,14), (1864646131,14), (1864417389,14), (1864188673,14), (1863959984,14), (1863731320,14), (1863502683,14), (1863274071,14), (1863045486,14), (1862816927,14), (1862588394,14), (1862359886,14), (1862131405,14), (1861902950,14),
    (1861674521,14), (1861446118,14), (1861217741,14), (1860989390,14), (1860761065,14), (1860532766,14), (1860304493,14), (1860076246,14), (1859848025,14), (1859619831,14), (1859391662,14), (1859163519,14), (1858935402,14), (1858707311,14), (1858479245,14), (1858251206,14),
    (1858023193,14), (1857795206,14), (1857567245,14), (1857339310,14), (1857111400,14), (1856883517,14), (1856655659,14), (1856427828,14), (1856200022,14), (1855972242,14), (1855744489,14), (1855516761,14), (1855289059,14), (1855061383,14), (1854833733,14), (1854606108,14),
    (1854378510,14), (1854150938,14), (1853923391,14), (1853695870,14), (1853468375,14), (1853240906,14), (1853013463,14), (1852786046,14), (1852558655,14), (1852331289,14), (1852103949,14), (1851876635,14), (1851649347,14), (1851422085,14), (1851194849,14), (1850967638,14),
    (1850740454,14), (1850513295,14), (1850286161,14), (1850059054,14), (1849831973,14), (1849604917,14), (1849377887,14), (1849150883,14), (1848923905,14), (1848696952,14), (1848470025,14), (1848243124,14), (1848016249,14), (1847789400,14), (1847562576,14), (1847335778,14),
    (1847109006,14), (1846882259,14), (1846655538,14), (1846428843,14), (1846202174,14), (1845975531,14), (1845748913,14), (1845522321,14), (1845295754,14), (1845069214,14), (1844842699,14), (1844616209,14), (1844389746,14), (1844163308,14), (1843936896,14), (1843710509,14),
    (1843484148,14), (1843257813,14), (1843031504,14), (1842805220,14), (1842578962,14), (1842352729,14), (1842126522,14), (1841900341,14), (1841674186,14), (1841448056,14), (1841221952,14), (1840995873,14), (1840769820,14), (1840543792,14), (1840317791,14), (1840091814,14),
    (1839865864,14), (1839639939,14), (1839414040,14), (1839188166,14), (1838962318,14), (1838736495,14), (1838510698,14), (1838284927,14), (1838059181,14), (1837833461,14), (1837607766,14), (1837382097,14), (1837156453,14), (1836930835,14), (1836705243,14), (1836479676,14),
    (1836254134,14), (1836028618,14), (1835803128,14), (1835577663,14), (1835352224,14), (1835126810,14), (1834901422,14), (1834676059,14), (1834450722,14), (1834225410,14), (1834000124,14), (1833774863,14), (1833549628,14), (1833324418,14), (1833099234,14), (1832874075,14),
    (1832648942,14), (1832423834,14), (1832198751,14), (1831973694,14), (1831748663,14), (1831523657,14), (1831298676,14), (1831073721,14), (1830848791,14), (1830623887,14), (1830399008,14), (1830174155,14), (1829949327,14), (1829724524,14), (1829499747,14), (1829274995,14),
    (1829050269,14), (1828825567,14), (1828600892,14), (1828376242,14), (1828151617,14), (1827927017,14), (1827702443,14), (1827477894,14), (1827253371,14), (1827028873,14), (1826804400,14), (1826579953,14), (1826355531,14), (1826131135,14), (1825906763,14), (1825682418,14),
    (1825458097,14), (1825233802,14), (1825009532,14), (1824785287,14), (1824561068,14), (1824336874,14), (1824112705,14), (1823888562,14), (1823664444,14), (1823440351,14), (1823216284,14), (1822992241,14), (1822768224,14), (1822544233,14), (1822320266,14), (1822096325,14),
    (1821872409,14), (1821648519,14), (1821424654,14), (1821200813,14), (1820976999,14), (1820753209,14), (1820529445,14), (1820305706,14), (1820081992,14), (1819858303,14), (1819634640,14), (1819411001,14), (1819187388,14), (1818963801,14), (1818740238,14), (1818516701,14),
    (1818293188,14), (1818069701,14), (1817846240,14), (1817622803,14), (1817399392,14), (1817176005,14), (1816952644,14), (1816729308,14), (1816505997,14), (1816282712,14), (1816059451,14), (1815836216,14), (1815613006,14), (1815389821,14), (1815166661,14), (1814943526,14),
    (1814720417,14), (1814497332,14), (1814274273,14), (1814051238,14), (1813828229,14), (1813605245,14), (1813382286,14), (1813159352,14), (1812936444,14), (1812713560,14), (1812490701,14), (1812267868,14), (1812045059,14), (1811822276,14), (1811599518,14), (1811376784,14),
    (1811154076,14), (1810931393,14), (1810708735,14), (1810486102,14), (1810263494,14), (1810040911,14), (1809818353,14), (1809595820,14), (1809373313,14), (1809150830,14), (1808928372,14), (1808705939,14), (1808483531,14), (1808261149,14), (1808038791,14), (1807816458,14),
    (1807594150,14), (1807371867,14), (1807149610,14), (1806927377,14), (1806705169,14), (1806482986,14), (1806260828,14), (1806038695,14), (1805816587,14), (1805594504,14), (1805372446,14), (1805150413,14), (1804928405,14), (1804706421,14), (1804484463,14), (1804262530,14),
    (1804040621,14), (1803818738,14), (1803596879,14), (1803375045,14), (1803153236,14), (1802931453,14), (1802709694,14), (1802487959,14), (1802266250,14), (1802044566,14), (1801822906,14), (1801601272,14), (1801379662,14), (1801158077,14), (1800936517,14), (1800714982,14),
    (1800493472,14), (1800271987,14), (1800050526,14), (1799829090,14), (1799607679,14), (1799386293,14), (1799164932,14), (1798943596,14), (1798722284,14), (1798500998,14), (1798279736,14), (1798058499,14), (1797837286,14), (1797616099,14), (1797394936,14), (1797173798,14),
    (1796952685,14), (1796731597,14), (1796510534,14), (1796289495,14), (1796068481,14), (1795847492,14), (1795626527,14), (1795405588,14), (1795184673,14), (1794963782,14), (1794742917,14), (1794522076,14), (1794301261,14), (1794080469,14), (1793859703,14), (1793638961,14),
    (1793418244,14), (1793197552,14), (1792976884,14), (1792756242,14), (1792535623,14), (1792315030,14), (1792094461,14), (1791873917,14), (1791653398,14), (1791432903,14), (1791212433,14), (1790991988,14), (1790771567,14), (1790551171,14), (1790330800,14), (1790110453,14),
    (1789890131,14), (1789669834,14), (1789449561,14), (1789229313,14), (1789009090,14), (1788788891,14), (1788568717,14), (1788348568,14), (1788128443,14), (1787908343,14), (1787688267,14), (1787468216,14), (1787248190,14), (1787028188,14), (1786808211,14), (1786588258,14),
    (1786368330,14), (1786148427,14), (1785928548,14), (1785708694,14), (1785488864,14), (1785269059,14), (1785049278,14), (1784829523,14), (1784609791,14), (1784390084,14), (1784170402,14), (1783950744,14), (1783731111,14), (1783511502,14), (1783291918,14), (1783072359,14),
    (1782852824,14), (1782633313,14), (1782413827,14), (1782194365,14), (1781974928,14), (1781755516,14), (1781536128,14), (1781316764,14), (1781097425,14), (1780878111,14), (1780658821,14), (1780439555,14), (1780220314,14), (1780001098,14), (1779781905,14), (1779562738,14),
    (1779343595,14), (1779124476,14), (1778905381,14), (1778686312,14), (1778467266,14), (1778248245,14), (1778029249,14), (1777810277,14), (1777591329,14), (1777372406,14), (1777153507,14), (1776934632,14), (1776715782,14), (1776496957,14), (1776278156,14), (1776059379,14),
    (1775840626,14), (1775621898,14), (1775403195,14), (1775184516,14), (1774965861,14), (1774747230,14), (1774528624,14), (1774310042,14), (1774091485,14), (1773872952,14), (1773654443,14), (1773435959,14), (1773217499,14), (1772999063,14), (1772780652,14), (1772562265,14),
    (1772343903,14), (1772125564,14), (1771907250,14), (1771688961,14), (1771470695,14), (1771252454,14), (1771034237,14), (1770816045,14), (1770597877,14), (1770379733,14), (1770161613,14), (1769943518,14), (1769725447,14), (1769507401,14), (1769289378,14), (1769071380,14),
    (1768853406,14), (1768635456,14), (1768417531,14), (1768199630,14), (1767981753,14), (1767763900,14), (1767546072,14), (1767328268,14), (1767110488,14), (1766892732,14), (1766675001,14), (1766457293,14), (1766239610,14), (1766021952,14), (1765804317,14), (1765586707,14),
    (1765369120,14), (1765151558,14), (1764934021,14), (1764716507,14), (1764499017,14), (1764281552,14), (1764064111,14), (1763846694,14), (1763629301,14), (1763411933,14), (1763194588,14), (1762977268,14), (1762759972,14), (1762542700,14), (1762325452,14), (1762108229,14),
    (1761891029,14), (1761673854,14), (1761456702,14), (1761239575,14), (1761022472,14), (1760805393,14), (1760588338,14), (1760371308,14), (1760154301,14), (1759937319,14), (1759720360,14), (1759503426,14), (1759286516,14), (1759069629,14), (1758852767,14), (1758635929,14),
    (1758419115,14), (1758202326,14), (1757985560,14), (1757768818,14), (1757552100,14), (1757335407,14), (1757118737,14), (1756902092,14), (1756685470,14), (1756468873,14), (1756252299,14), (1756035750,14), (1755819225,14), (1755602723,14), (1755386246,14), (1755169793,14),
    (1754953363,14), (1754736958,14), (1754520577,14), (1754304219,14), (1754087886,14), (1753871577,14), (1753655291,14), (1753439030,14), (1753222793,14), (1753006579,14), (1752790390,14), (1752574224,14), (1752358083,14), (1752141965,14), (1751925871,14), (1751709802,14),
    (1751493756,14), (1751277734,14), (1751061736,14), (1750845762,14), (1750629812,14), (1750413886,14), (1750197984,14), (1749982106,14), (1749766252,14), (1749550421,14), (1749334615,14), (1749118832,14), (1748903073,14), (1748687338,14), (1748471628,14), (1748255940,14),
    (1748040277,14), (1747824638,14), (1747609023,14), (1747393431,14), (1747177863,14), (1746962319,14), (1746746800,14), (1746531303,14), (1746315831,14), (1746100383,14), (1745884958,14), (1745669557,14), (1745454180,14), (1745238827,14), (1745023498,14), (1744808193,14),
    (1744592911,14), (1744377653,14), (1744162419,14), (1743947209,14), (1743732023,14), (1743516860,14), (1743301721,14), (1743086606,14), (1742871515,14), (1742656447,14), (1742441404,14), (1742226384,14), (1742011388,14), (1741796415,14), (1741581467,14), (1741366542,14),
    (1741151641,14), (1740936763,14), (1740721910,14), (1740507080,14), (1740292274,14), (1740077492,14), (1739862733,14), (1739647998,14), (1739433287,14), (1739218599,14), (1739003935,14), (1738789295,14), (1738574679,14), (1738360086,14), (1738145517,14), (1737930972,14),
    (1737716451,14), (1737501953,14), (1737287479,14), (1737073028,14), (1736858601,14), (1736644198,14), (1736429819,14), (1736215463,14), (1736001131,14), (1735786822,14), (1735572537,14), (1735358276,14), (1735144038,14), (1734929824,14), (1734715634,14), (1734501467,14),
    (1734287324,14), (1734073205,14), (1733859109,14), (1733645037,14), (1733430988,14), (1733216963,14), (1733002962,14), (1732788984,14), (1732575030,14), (1732361100,14), (1732147193,14), (1731933309,14), (1731719449,14), (1731505613,14), (1731291801,14), (1731078011,14),
    (1730864246,14), (1730650504,14), (1730436786,14), (1730223091,14), (1730009419,14), (1729795772,14), (1729582147,14), (1729368547,14), (1729154970,14), (1728941416,14), (1728727886,14), (1728514379,14), (1728300896,14), (1728087437,14), (1727874001,14), (1727660588,14),
    (1727447199,14), (1727233834,14), (1727020492,14), (1726807173,14), (1726593878,14), (1726380607,14), (1726167359,14), (1725954134,14), (1725740933,14), (1725527755,14), (1725314601,14), (1725101470,14), (1724888363,14), (1724675279,14), (1724462219,14), (1724249182,14),
    (1724036169,14), (1723823179,14), (1723610212,14), (1723397269,14), (1723184349,14), (1722971453,14), (1722758580,14), (1722545730,14), (1722332904,14), (1722120102,14), (1721907322,14), (1721694566,14), (1721481834,14), (1721269125,14), (1721056439,14), (1720843777,14),
    (1720631138,14), (1720418522,14), (1720205930,14), (1719993361,14), (1719780816,14), (1719568294,14), (1719355795,14), (1719143320,14), (1718930868,14), (1718718439,14), (1718506034,14), (1718293652,14), (1718081293,14), (1717868958,14), (1717656646,14), (1717444357,14),
    (1717232092,14), (1717019850,14), (1716807631,14), (1716595435,14), (1716383263,14), (1716171114,14), (1715958989,14), (1715746887,14), (1715534808,14), (1715322752,14), (1715110719,14), (1714898710,14), (1714686724,14), (1714474762,14), (1714262823,14), (1714050907,14),
    (1713839014,14), (1713627144,14), (1713415298,14), (1713203475,14), (1712991675,14), (1712779898,14), (1712568145,14), (1712356415,14), (1712144708,14), (1711933024,14), (1711721364,14), (1711509727,14), (1711298113,14), (1711086522,14), (1710874954,14), (1710663410,14),
    (1710451889,14), (1710240391,14), (1710028916,14), (1709817464,14), (1709606036,14), (1709394630,14), (1709183248,14), (1708971889,14), (1708760553,14), (1708549241,14), (1708337951,14), (1708126685,14), (1707915442,14), (1707704222,14), (1707493025,14), (1707281851,14),
    (1707070701,14), (1706859573,14), (1706648469,14), (1706437387,14), (1706226329,14), (1706015294,14), (1705804283,14), (1705593294,14), (1705382328,14), (1705171385,14), (1704960466,14), (1704749570,14), (1704538696,14), (1704327846,14), (1704117019,14), (1703906215,14),
    (1703695434,14), (1703484676,14), (1703273941,14), (1703063230,14), (1702852541,14), (1702641875,14), (1702431233,14), (1702220613,14), (1702010016,14), (1701799443,14), (1701588893,14), (1701378365,14), (1701167861,14), (1700957379,14), (1700746921,14), (1700536486,14),
    (1700326074,14), (1700115684,14), (1699905318,14), (1699694975,14), (1699484654,14), (1699274357,14), (1699064083,14), (1698853831,14), (1698643603,14), (1698433398,14), (1698223215,14), (1698013056,14), (1697802920,14), (1697592806,14), (1697382716,14), (1697172648,14),
    (1696962603,14), (1696752582,14), (1696542583,14), (1696332607,14), (1696122655,14), (1695912725,14), (1695702818,14), (1695492934,14), (1695283073,14), (1695073234,14), (1694863419,14), (1694653627,14), (1694443857,14), (1694234111,14), (1694024387,14), (1693814686,14),
    (1693605008,14), (1693395354,14), (1693185721,14), (1692976112,14), (1692766526,14), (1692556962,14), (1692347422,14), (1692137904,14), (1691928409,14), (1691718937,14), (1691509488,14), (1691300062,14), (1691090659,14), (1690881278,14), (1690671920,14), (1690462585,14),
    (1690253273,14), (1690043984,14), (1689834718,14), (1689625474,14), (1689416253,14), (1689207055,14), (1688997880,14), (1688788728,14), (1688579598,14), (1688370491,14), (1688161407,14), (1687952346,14), (1687743308,14), (1687534292,14), (1687325300,14), (1687116329,14),
    (1686907382,14), (1686698458,14), (1686489556,14), (1686280677,14), (1686071821,14), (1685862987,14), (1685654177,14), (1685445389,14), (1685236624,14), (1685027881,14), (1684819161,14), (1684610464,14), (1684401790,14), (1684193139,14), (1683984510,14), (1683775904,14),
    (1683567320,14), (1683358760,14), (1683150222,14), (1682941706,14), (1682733214,14), (1682524744,14), (1682316297,14), (1682107872,14), (1681899471,14), (1681691091,14), (1681482735,14), (1681274401,14), (1681066090,14), (1680857802,14), (1680649536,14), (1680441293,14),
    (1680233072,14), (1680024875,14), (1679816699,14), (1679608547,14), (1679400417,14), (1679192310,14), (1678984225,14), (1678776163,14), (1678568124,14), (1678360107,14), (1678152113,14), (1677944141,14), (1677736193,14), (1677528266,14), (1677320363,14), (1677112482,14),
    (1676904623,14), (1676696787,14), (1676488974,14), (1676281183,14), (1676073415,14), (1675865669,14), (1675657946,14), (1675450246,14), (1675242568,14), (1675034913,14), (1674827280,14), (1674619670,14), (1674412082,14), (1674204517,14), (1673996975,14), (1673789455,14),
    (1673581957,14), (1673374482,14), (1673167030,14), (1672959600,14), (1672752193,14), (1672544808,14), (1672337446,14), (1672130106,14), (1671922789,14), (1671715494,14), (1671508221,14), (1671300972,14), (1671093744,14), (1670886540,14), (1670679357,14), (1670472197,14),
    (1670265060,14), (1670057945,14), (1669850853,14), (1669643783,14), (1669436735,14), (1669229710,14), (1669022708,14), (1668815728,14), (1668608770,14), (1668401835,14), (1668194922,14), (1667988032,14), (1667781164,14), (1667574318,14), (1667367495,14), (1667160695,14),
    (1666953916,14), (1666747161,14), (1666540427,14), (1666333716,14), (1666127028,14), (1665920361,14), (1665713718,14), (1665507096,14), (1665300497,14), (1665093921,14), (1664887367,14), (1664680835,14), (1664474325,14), (1664267838,14), (1664061373,14), (1663854931,14),
    (1663648511,14), (1663442114,14), (1663235738,14), (1663029385,14), (1662823055,14), (1662616747,14), (1662410461,14), (1662204197,14), (1661997956,14), (1661791737,14), (1661585540,14), (1661379366,14), (1661173214,14), (1660967085,14), (1660760977,14), (1660554892,14),
    (1660348830,14), (1660142789,14), (1659936771,14), (1659730775,14), (1659524802,14), (1659318851,14), (1659112922,14), (1658907015,14), (1658701131,14), (1658495268,14), (1658289429,14), (1658083611,14), (1657877816,14), (1657672043,14), (1657466292,14), (1657260563,14),
    (1657054857,14), (1656849173,14), (1656643511,14), (1656437871,14), (1656232254,14), (1656026659,14), (1655821086,14), (1655615535,14), (1655410007,14), (1655204500,14), (1654999016,14), (1654793555,14), (1654588115,14), (1654382697,14), (1654177302,14), (1653971929,14),
    (1653766578,14), (1653561249,14), (1653355943,14), (1653150659,14), (1652945396,14), (1652740156,14), (1652534939,14), (1652329743,14), (1652124569,14), (1651919418,14), (1651714289,14), (1651509182,14), (1651304097,14), (1651099034,14), (1650893994,14), (1650688975,14),
    (1650483979,14), (1650279004,14), (1650074052,14), (1649869122,14), (1649664214,14), (1649459329,14), (1649254465,14), (1649049623,14), (1648844804,14), (1648640007,14), (1648435231,14), (1648230478,14), (1648025747,14), (1647821038,14), (1647616351,14), (1647411686,14),
    (1647207044,14), (1647002423,14), (1646797824,14), (1646593248,14), (1646388693,14), (1646184161,14), (1645979650,14), (1645775162,14), (1645570696,14), (1645366252,14), (1645161829,14), (1644957429,14), (1644753051,14), (1644548695,14), (1644344361,14), (1644140049,14),
    (1643935759,14), (1643731491,14), (1643527245,14), (1643323020,14), (1643118818,14), (1642914638,14), (1642710480,14), (1642506344,14), (1642302230,14), (1642098138,14), (1641894068,14), (1641690020,14), (1641485994,14), (1641281990,14), (1641078007,14), (1640874047,14),
    (1640670109,14), (1640466192,14), (1640262298,14), (1640058426,14), (1639854575,14), (1639650747,14), (1639446940,14), (1639243155,14), (1639039393,14), (1638835652,14), (1638631933,14), (1638428236,14), (1638224561,14), (1638020908,14), (1637817277,14), (1637613667,14),
    (1637410080,14), (1637206514,14), (1637002971,14), (1636799449,14), (1636595949,14), (1636392471,14), (1636189015,14), (1635985581,14), (1635782169,14), (1635578778,14), (1635375409,14), (1635172063,14), (1634968738,14), (1634765435,14), (1634562154,14), (1634358894,14),
    (1634155657,14), (1633952441,14), (1633749248,14), (1633546076,14), (1633342926,14), (1633139797,14), (1632936691,14), (1632733606,14), (1632530543,14), (1632327502,14), (1632124483,14), (1631921486,14), (1631718510,14), (1631515556,14), (1631312625,14), (1631109714,14),
    (1630906826,14), (1630703959,14), (1630501115,14), (1630298291,14), (1630095490,14), (1629892711,14), (1629689953,14), (1629487217,14), (1629284503,14), (1629081810,14), (1628879140,14), (1628676491,14), (1628473864,14), (1628271258,14), (1628068675,14), (1627866113,14),
    (1627663572,14), (1627461054,14), (1627258557,14), (1627056082,14), (1626853629,14), (1626651197,14), (1626448787,14), (1626246399,14), (1626044033,14), (1625841688,14), (1625639365,14), (1625437063,14), (1625234784,14), (1625032526,14), (1624830289,14), (1624628075,14),
    (1624425882,14), (1624223710,14), (1624021561,14), (1623819433,14), (1623617327,14), (1623415242,14), (1623213179,14), (1623011138,14), (1622809118,14), (1622607120,14), (1622405144,14), (1622203189,14), (1622001256,14), (1621799345,14), (1621597455,14), (1621395586,14),
    (1621193740,14), (1620991915,14), (1620790112,14), (1620588330,14), (1620386570,14), (1620184831,14), (1619983114,14), (1619781419,14), (1619579745,14), (1619378093,14), (1619176463,14), (1618974854,14), (1618773266,14), (1618571701,14), (1618370156,14), (1618168634,14),
    (1617967133,14), (1617765653,14), (1617564195,14), (1617362759,14), (1617161344,14), (1616959951,14), (1616758579,14), (1616557229,14), (1616355900,14), (1616154593,14), (1615953307,14), (1615752043,14), (1615550801,14), (1615349579,14), (1615148380,14), (1614947202,14),
    (1614746045,14), (1614544911,14), (1614343797,14), (1614142705,14), (1613941635,14), (1613740586,14), (1613539558,14), (1613338552,14), (1613137568,14), (1612936605,14), (1612735663,14), (1612534743,14), (1612333844,14), (1612132967,14), (1611932112,14), (1611731277,14),
    (1611530465,14), (1611329673,14), (1611128903,14), (1610928155,14), (1610727428,14), (1610526722,14), (1610326038,14), (1610125376,14), (1609924734,14), (1609724115,14), (1609523516,14), (1609322939,14), (1609122384,14), (1608921850,14), (1608721337,14), (1608520846,14),
    (1608320376,14), (1608119927,14), (1607919500,14), (1607719094,14), (1607518710,14), (1607318347,14), (1607118005,14), (1606917685,14), (1606717386,14), (1606517109,14), (1606316853,14), (1606116618,14), (1605916405,14), (1605716213,14), (1605516042,14), (1605315893,14),
    (1605115765,14), (1604915658,14), (1604715573,14), (1604515509,14), (1604315466,14), (1604115445,14), (1603915445,14), (1603715466,14), (1603515509,14), (1603315573,14), (1603115658,14), (1602915765,14), (1602715893,14), (1602516042,14), (1602316213,14), (1602116405,14),
    (1601916618,14), (1601716852,14), (1601517108,14), (1601317385,14), (1601117683,14), (1600918003,14), (1600718343,14), (1600518706,14), (1600319089,14), (1600119493,14), (1599919919,14), (1599720366,14), (1599520835,14), (1599321324,14), (1599121835,14), (1598922367,14),
    (1598722921,14), (1598523495,14), (1598324091,14), (1598124708,14), (1597925346,14), (1597726006,14), (1597526687,14), (1597327389,14), (1597128112,14), (1596928856,14), (1596729622,14), (1596530408,14), (1596331216,14), (1596132045,14), (1595932896,14), (1595733767,14),
    (1595534660,14), (1595335574,14), (1595136509,14), (1594937465,14), (1594738442,14), (1594539441,14), (1594340461,14), (1594141502,14), (1593942564,14), (1593743647,14), (1593544751,14), (1593345877,14), (1593147023,14), (1592948191,14), (1592749380,14), (1592550590,14),
    (1592351821,14), (1592153073,14), (1591954347,14), (1591755641,14), (1591556957,14), (1591358294,14), (1591159652,14), (1590961031,14), (1590762431,14), (1590563852,14), (1590365294,14), (1590166758,14), (1589968242,14), (1589769748,14), (1589571274,14), (1589372822,14),
    (1589174391,14), (1588975981,14), (1588777592,14), (1588579224,14), (1588380877,14), (1588182551,14), (1587984246,14), (1587785962,14), (1587587700,14), (1587389458,14), (1587191237,14), (1586993038,14), (1586794859,14), (1586596702,14), (1586398565,14), (1586200450,14),
    (1586002355,14), (1585804282,14), (1585606229,14), (1585408198,14), (1585210188,14), (1585012198,14), (1584814230,14), (1584616282,14), (1584418356,14), (1584220451,14), (1584022566,14), (1583824703,14), (1583626860,14), (1583429039,14), (1583231238,14), (1583033459,14),
    (1582835700,14), (1582637963,14), (1582440246,14), (1582242550,14), (1582044876,14), (1581847222,14), (1581649589,14), (1581451977,14), (1581254387,14), (1581056817,14), (1580859267,14), (1580661739,14), (1580464232,14), (1580266746,14), (1580069281,14), (1579871836,14),
    (1579674413,14), (1579477010,14), (1579279629,14), (1579082268,14), (1578884928,14), (1578687609,14), (1578490311,14), (1578293034,14), (1578095777,14), (1577898542,14), (1577701327,14), (1577504134,14), (1577306961,14), (1577109809,14), (1576912678,14), (1576715568,14),
    (1576518479,14), (1576321410,14), (1576124363,14), (1575927336,14), (1575730330,14), (1575533345,14), (1575336381,14), (1575139438,14), (1574942515,14), (1574745613,14), (1574548733,14), (1574351873,14), (1574155033,14), (1573958215,14), (1573761417,14), (1573564641,14),
    (1573367885,14), (1573171150,14), (1572974435,14), (1572777742,14), (1572581069,14), (1572384417,14), (1572187786,14), (1571991176,14), (1571794586,14), (1571598017,14), (1571401469,14), (1571204942,14), (1571008435,14), (1570811950,14), (1570615485,14), (1570419041,14),
    (1570222617,14), (1570026214,14), (1569829833,14), (1569633471,14), (1569437131,14), (1569240811,14), (1569044512,14), (1568848234,14), (1568651977,14), (1568455740,14), (1568259524,14), (1568063328,14), (1567867154,14), (1567671000,14), (1567474867,14), (1567278754,14),
    (1567082663,14), (1566886591,14), (1566690541,14), (1566494511,14), (1566298502,14), (1566102514,14), (1565906547,14), (1565710600,14), (1565514673,14), (1565318768,14), (1565122883,14), (1564927019,14), (1564731175,14), (1564535352,14), (1564339550,14), (1564143768,14),
    (1563948007,14), (1563752267,14), (1563556548,14), (1563360849,14), (1563165170,14), (1562969512,14), (1562773875,14), (1562578259,14), (1562382663,14), (1562187088,14), (1561991533,14), (1561795999,14), (1561600486,14), (1561404993,14), (1561209521,14), (1561014069,14),
    (1560818638,14), (1560623228,14), (1560427838,14), (1560232469,14), (1560037121,14), (1559841793,14), (1559646485,14), (1559451198,14), (1559255932,14), (1559060686,14), (1558865461,14), (1558670257,14), (1558475073,14), (1558279909,14), (1558084766,14), (1557889644,14),
    (1557694542,14), (1557499461,14), (1557304400,14), (1557109360,14), (1556914340,14), (1556719341,14), (1556524363,14), (1556329405,14), (1556134467,14), (1555939550,14), (1555744654,14), (1555549778,14), (1555354922,14), (1555160087,14), (1554965273,14), (1554770479,14),
    (1554575705,14), (1554380952,14), (1554186220,14), (1553991508,14), (1553796816,14), (1553602145,14), (1553407495,14), (1553212865,14), (1553018255,14), (1552823666,14), (1552629097,14), (1552434549,14), (1552240021,14), (1552045514,14), (1551851027,14), (1551656561,14),
    (1551462115,14), (1551267689,14), (1551073284,14), (1550878899,14), (1550684535,14), (1550490191,14), (1550295868,14), (1550101565,14), (1549907282,14), (1549713020,14), (1549518779,14), (1549324557,14), (1549130356,14), (1548936176,14), (1548742016,14), (1548547876,14),
    (1548353757,14), (1548159658,14), (1547965579,14), (1547771521,14), (1547577483,14), (1547383466,14), (1547189469,14), (1546995492,14), (1546801536,14), (1546607600,14), (1546413685,14), (1546219789,14), (1546025915,14), (1545832060,14), (1545638226,14), (1545444412,14),
    (1545250619,14), (1545056846,14), (1544863093,14), (1544669360,14), (1544475648,14), (1544281956,14), (1544088285,14), (1543894634,14), (1543701003,14), (1543507393,14), (1543313802,14), (1543120232,14), (1542926683,14), (1542733153,14), (1542539644,14), (1542346156,14),
    (1542152687,14), (1541959239,14), (1541765811,14), (1541572404,14), (1541379016,14), (1541185649,14), (1540992303,14), (1540798976,14), (1540605670,14), (1540412384,14), (1540219118,14), (1540025873,14), (1539832648,14), (1539639443,14), (1539446258,14), (1539253094,14),
    (1539059949,14), (1538866825,14), (1538673722,14), (1538480638,14), (1538287575,14), (1538094532,14), (1537901509,14), (1537708506,14), (1537515524,14), (1537322562,14), (1537129620,14), (1536936698,14), (1536743796,14), (1536550915,14), (1536358054,14), (1536165213,14),
    (1535972392,14), (1535779591,14), (1535586811,14), (1535394051,14), (1535201311,14), (1535008591,14), (1534815891,14), (1534623211,14), (1534430552,14), (1534237913,14), (1534045293,14), (1533852695,14), (1533660116,14), (1533467557,14), (1533275019,14), (1533082500,14),
    (1532890002,14), (1532697524,14), (1532505066,14), (1532312628,14), (1532120210,14), (1531927813,14), (1531735435,14), (1531543078,14), (1531350741,14), (1531158424,14), (1530966127,14), (1530773850,14), (1530581593,14), (1530389356,14), (1530197139,14), (1530004943,14),
    (1529812766,14), (1529620610,14), (1529428474,14), (1529236358,14), (1529044261,14), (1528852185,14), (1528660129,14), (1528468093,14), (1528276078,14), (1528084082,14), (1527892106,14), (1527700150,14), (1527508215,14), (1527316299,14), (1527124404,14), (1526932528,14),
    (1526740673,14), (1526548837,14), (1526357022,14), (1526165226,14), (1525973451,14), (1525781696,14), (1525589960,14), (1525398245,14), (1525206550,14), (1525014874,14), (1524823219,14), (1524631584,14), (1524439969,14), (1524248373,14), (1524056798,14), (1523865243,14),
    (1523673707,14), (1523482192,14), (1523290697,14), (1523099221,14), (1522907766,14), (1522716330,14), (1522524915,14), (1522333520,14), (1522142144,14), (1521950788,14), (1521759453,14), (1521568137,14), (1521376841,14), (1521185566,14), (1520994310,14), (1520803074,14),
    (1520611858,14), (1520420662,14), (1520229486,14), (1520038330,14), (1519847194,14), (1519656077,14), (1519464981,14), (1519273904,14), (1519082848,14), (1518891811,14), (1518700794,14), (1518509798,14), (1518318821,14), (1518127864,14), (1517936926,14), (1517746009,14),
    (1517555112,14), (1517364234,14), (1517173377,14), (1516982539,14), (1516791721,14), (1516600923,14), (1516410145,14), (1516219387,14), (1516028648,14), (1515837930,14), (1515647231,14), (1515456552,14), (1515265893,14), (1515075254,14), (1514884635,14), (1514694035,14),
    (1514503456,14), (1514312896,14), (1514122356,14), (1513931836,14), (1513741336,14), (1513550855,14), (1513360395,14), (1513169954,14), (1512979533,14), (1512789132,14), (1512598750,14), (1512408389,14), (1512218047,14), (1512027725,14), (1511837423,14), (1511647140,14),
    (1511456878,14), (1511266635,14), (1511076412,14), (1510886208,14), (1510696025,14), (1510505861,14), (1510315717,14), (1510125593,14), (1509935489,14), (1509745404,14), (1509555339,14), (1509365294,14), (1509175268,14), (1508985263,14), (1508795277,14), (1508605311,14),
    (1508415364,14), (1508225438,14), (1508035531,14), (1507845643,14), (1507655776,14), (1507465928,14), (1507276100,14), (1507086292,14), (1506896503,14), (1506706734,14), (1506516985,14), (1506327255,14), (1506137546,14), (1505947855,14), (1505758185,14), (1505568534,14),
    (1505378903,14), (1505189292,14), (1504999700,14), (1504810128,14), (1504620576,14), (1504431043,14), (1504241530,14), (1504052037,14), (1503862563,14), (1503673110,14), (1503483675,14), (1503294261,14), (1503104866,14), (1502915490,14), (1502726135,14), (1502536798,14),
    (1502347482,14), (1502158185,14), (1501968908,14), (1501779651,14), (1501590413,14), (1501401194,14), (1501211996,14), (1501022817,14), (1500833657,14), (1500644518,14), (1500455397,14), (1500266297,14), (1500077216,14), (1499888155,14), (1499699113,14), (1499510091,14),
    (1499321088,14), (1499132105,14), (1498943142,14), (1498754198,14), (1498565274,14), (1498376369,14), (1498187484,14), (1497998618,14), (1497809772,14), (1497620946,14), (1497432139,14), (1497243352,14), (1497054584,14), (1496865836,14), (1496677107,14), (1496488398,14),
    (1496299709,14), (1496111039,14), (1495922388,14), (1495733758,14), (1495545146,14), (1495356554,14), (1495167982,14), (1494979429,14), (1494790896,14), (1494602382,14), (1494413888,14), (1494225413,14), (1494036958,14), (1493848522,14), (1493660106,14), (1493471709,14),
    (1493283332,14), (1493094974,14), (1492906636,14), (1492718317,14), (1492530018,14), (1492341738,14), (1492153478,14), (1491965237,14), (1491777015,14), (1491588813,14), (1491400631,14), (1491212468,14), (1491024324,14), (1490836200,14), (1490648096,14), (1490460011,14),
    (1490271945,14), (1490083899,14), (1489895872,14), (1489707864,14), (1489519876,14), (1489331908,14), (1489143959,14), (1488956029,14), (1488768119,14), (1488580228,14), (1488392356,14), (1488204504,14), (1488016672,14), (1487828858,14), (1487641065,14), (1487453290,14),
    (1487265535,14), (1487077800,14), (1486890083,14), (1486702387,14), (1486514709,14), (1486327051,14), (1486139412,14), (1485951793,14), (1485764193,14), (1485576613,14), (1485389051,14), (1485201510,14), (1485013987,14), (1484826484,14), (1484639000,14), (1484451536,14),
    (1484264091,14), (1484076665,14), (1483889259,14), (1483701872,14), (1483514504,14), (1483327156,14), (1483139827,14), (1482952517,14), (1482765227,14), (1482577956,14), (1482390704,14), (1482203472,14), (1482016259,14), (1481829065,14), (1481641890,14), (1481454735,14),
    (1481267599,14), (1481080483,14), (1480893385,14), (1480706308,14), (1480519249,14), (1480332209,14), (1480145189,14), (1479958189,14), (1479771207,14), (1479584245,14), (1479397302,14), (1479210378,14), (1479023474,14), (1478836588,14), (1478649722,14), (1478462876,14),
    (1478276048,14), (1478089240,14), (1477902451,14), (1477715682,14), (1477528931,14), (1477342200,14), (1477155488,14), (1476968795,14), (1476782122,14), (1476595468,14), (1476408833,14), (1476222217,14), (1476035620,14), (1475849043,14), (1475662485,14), (1475475946,14),
    (1475289426,14), (1475102925,14), (1474916444,14), (1474729982,14), (1474543539,14), (1474357115,14), (1474170711,14), (1473984325,14), (1473797959,14), (1473611612,14), (1473425284,14), (1473238975,14), (1473052686,14), (1472866416,14), (1472680165,14), (1472493933,14),
    (1472307720,14), (1472121526,14), (1471935351,14), (1471749196,14), (1471563060,14), (1471376943,14), (1471190845,14), (1471004766,14), (1470818706,14), (1470632666,14), (1470446644,14), (1470260642,14), (1470074659,14), (1469888695,14), (1469702750,14), (1469516824,14),
    (1469330918,14), (1469145030,14), (1468959162,14), (1468773312,14), (1468587482,14), (1468401671,14), (1468215879,14), (1468030106,14), (1467844352,14), (1467658617,14), (1467472901,14), (1467287205,14), (1467101527,14), (1466915869,14), (1466730229,14), (1466544609,14),
    (1466359007,14), (1466173425,14), (1465987862,14), (1465802318,14), (1465616793,14), (1465431287,14), (1465245800,14), (1465060332,14), (1464874883,14), (1464689453,14), (1464504043,14), (1464318651,14), (1464133278,14), (1463947924,14), (1463762590,14), (1463577274,14),
    (1463391977,14), (1463206700,14), (1463021441,14), (1462836202,14), (1462650981,14), (1462465779,14), (1462280597,14), (1462095433,14), (1461910289,14), (1461725163,14), (1461540056,14), (1461354969,14), (1461169900,14), (1460984850,14), (1460799820,14), (1460614808,14),
    (1460429815,14), (1460244841,14), (1460059887,14), (1459874951,14), (1459690034,14), (1459505136,14), (1459320257,14), (1459135397,14), (1458950556,14), (1458765734,14), (1458580931,14), (1458396146,14), (1458211381,14), (1458026635,14), (1457841907,14), (1457657199,14),
    (1457472509,14), (1457287838,14), (1457103187,14), (1456918554,14), (1456733940,14), (1456549345,14), (1456364769,14), (1456180212,14), (1455995673,14), (1455811154,14), (1455626653,14), (1455442172,14), (1455257709,14), (1455073265,14), (1454888840,14), (1454704434,14),
    (1454520047,14), (1454335679,14), (1454151329,14), (1453966999,14), (1453782687,14), (1453598394,14), (1453414120,14), (1453229865,14), (1453045629,14), (1452861411,14), (1452677213,14), (1452493033,14), (1452308872,14), (1452124730,14), (1451940607,14), (1451756503,14),
    (1451572417,14), (1451388351,14), (1451204303,14), (1451020274,14), (1450836263,14), (1450652272,14), (1450468299,14), (1450284346,14), (1450100411,14), (1449916495,14), (1449732597,14), (1449548719,14), (1449364859,14), (1449181018,14), (1448997196,14), (1448813392,14),
    (1448629608,14), (1448445842,14), (1448262095,14), (1448078367,14), (1447894657,14), (1447710966,14), (1447527294,14), (1447343641,14), (1447160007,14), (1446976391,14), (1446792794,14), (1446609216,14), (1446425657,14), (1446242116,14), (1446058594,14), (1445875091,14),
    (1445691607,14), (1445508141,14), (1445324694,14), (1445141266,14), (1444957856,14), (1444774466,14), (1444591094,14), (1444407740,14), (1444224406,14), (1444041090,14), (1443857793,14), (1443674514,14), (1443491254,14), (1443308013,14), (1443124791,14), (1442941587,14),
    (1442758402,14), (1442575236,14), (1442392089,14), (1442208960,14), (1442025849,14), (1441842758,14), (1441659685,14), (1441476631,14), (1441293595,14), (1441110579,14), (1440927580,14), (1440744601,14), (1440561640,14), (1440378698,14), (1440195774,14), (1440012869,14),
    (1439829983,14), (1439647115,14), (1439464267,14), (1439281436,14), (1439098625,14), (1438915832,14), (1438733057,14), (1438550301,14), (1438367564,14), (1438184846,14), (1438002146,14), (1437819464,14), (1437636802,14), (1437454158,14), (1437271532,14), (1437088925,14),
    (1436906337,14), (1436723767,14), (1436541216,14), (1436358684,14), (1436176170,14), (1435993675,14), (1435811198,14), (1435628740,14), (1435446300,14), (1435263879,14), (1435081477,14), (1434899093,14), (1434716728,14), (1434534381,14), (1434352053,14), (1434169744,14),
    (1433987453,14), (1433805180,14), (1433622926,14), (1433440691,14), (1433258474,14), (1433076276,14), (1432894096,14), (1432711935,14), (1432529793,14), (1432347668,14), (1432165563,14), (1431983476,14), (1431801407,14), (1431619357,14), (1431437326,14), (1431255313,14),
    (1431073318,14), (1430891342,14), (1430709385,14), (1430527446,14), (1430345526,14), (1430163624,14), (1429981740,14), (1429799875,14), (1429618029,14), (1429436201,14), (1429254391,14), (1429072600,14), (1428890828,14), (1428709074,14), (1428527338,14), (1428345621,14),
    (1428163923,14), (1427982242,14), (1427800581,14), (1427618937,14), (1427437313,14), (1427255706,14), (1427074118,14), (1426892549,14), (1426710998,14), (1426529465,14), (1426347951,14), (1426166455,14), (1425984978,14), (1425803519,14), (1425622079,14), (1425440657,14),
    (1425259253,14), (1425077868,14), (1424896502,14), (1424715153,14), (1424533823,14), (1424352512,14), (1424171219,14), (1423989944,14), (1423808688,14), (1423627450,14), (1423446231,14), (1423265030,14), (1423083847,14), (1422902682,14), (1422721537,14), (1422540409,14),
    (1422359300,14), (1422178209,14), (1421997137,14), (1421816083,14), (1421635047,14), (1421454030,14), (1421273031,14), (1421092050,14), (1420911088,14), (1420730144,14), (1420549218,14), (1420368311,14), (1420187422,14), (1420006552,14), (1419825699,14), (1419644866,14),
    (1419464050,14), (1419283253,14), (1419102474,14), (1418921713,14), (1418740971,14), (1418560247,14), (1418379542,14), (1418198855,14), (1418018186,14), (1417837535,14), (1417656903,14), (1417476289,14), (1417295693,14), (1417115115,14), (1416934556,14), (1416754015,14),
    (1416573493,14), (1416392988,14), (1416212502,14), (1416032035,14), (1415851585,14), (1415671154,14), (1415490741,14), (1415310347,14), (1415129970,14), (1414949612,14), (1414769272,14), (1414588951,14), (1414408647,14), (1414228362,14), (1414048095,14), (1413867847,14),
    (1413687617,14), (1413507404,14), (1413327211,14), (1413147035,14), (1412966878,14), (1412786738,14), (1412606617,14), (1412426515,14), (1412246430,14), (1412066364,14), (1411886316,14), (1411706286,14), (1411526274,14), (1411346281,14), (1411166306,14), (1410986349,14),
    (1410806410,14), (1410626489,14), (1410446587,14), (1410266703,14), (1410086837,14), (1409906989,14), (1409727159,14), (1409547348,14), (1409367554,14), (1409187779,14), (1409008022,14), (1408828283,14), (1408648563,14), (1408468860,14), (1408289176,14), (1408109510,14),
    (1407929862,14), (1407750232,14), (1407570620,14), (1407391027,14), (1407211451,14), (1407031894,14), (1406852355,14), (1406672834,14), (1406493331,14), (1406313846,14), (1406134380,14), (1405954931,14), (1405775501,14), (1405596089,14), (1405416695,14), (1405237319,14),
    (1405057961,14), (1404878621,14), (1404699299,14), (1404519996,14), (1404340710,14), (1404161443,14), (1403982194,14), (1403802963,14), (1403623749,14), (1403444554,14), (1403265378,14), (1403086219,14), (1402907078,14), (1402727955,14), (1402548851,14), (1402369764,14),
    (1402190696,14), (1402011645,14), (1401832613,14), (1401653599,14), (1401474602,14), (1401295624,14), (1401116664,14), (1400937722,14), (1400758798,14), (1400579892,14), (1400401004,14), (1400222134,14), (1400043282,14), (1399864448,14), (1399685633,14), (1399506835,14),
    (1399328055,14), (1399149293,14), (1398970550,14), (1398791824,14), (1398613116,14), (1398434426,14), (1398255755,14), (1398077101,14), (1397898465,14), (1397719848,14), (1397541248,14), (1397362666,14), (1397184103,14), (1397005557,14), (1396827029,14), (1396648520,14),
    (1396470028,14), (1396291554,14), (1396113098,14), (1395934660,14), (1395756241,14), (1395577839,14), (1395399455,14), (1395221089,14), (1395042741,14), (1394864411,14), (1394686099,14), (1394507805,14), (1394329528,14), (1394151270,14), (1393973030,14), (1393794807,14),
    (1393616603,14), (1393438416,14), (1393260248,14), (1393082097,14), (1392903965,14), (1392725850,14), (1392547753,14), (1392369674,14), (1392191613,14), (1392013570,14), (1391835545,14), (1391657537,14), (1391479548,14), (1391301576,14), (1391123623,14), (1390945687,14),
    (1390767769,14), (1390589869,14), (1390411987,14), (1390234123,14), (1390056277,14), (1389878449,14), (1389700638,14), (1389522845,14), (1389345071,14), (1389167314,14), (1388989575,14), (1388811854,14), (1388634150,14), (1388456465,14), (1388278797,14), (1388101148,14),
    (1387923516,14), (1387745902,14), (1387568306,14), (1387390727,14), (1387213167,14), (1387035624,14), (1386858099,14), (1386680592,14), (1386503103,14), (1386325632,14), (1386148178,14), (1385970743,14), (1385793325,14), (1385615925,14), (1385438542,14), (1385261178,14),
    (1385083831,14), (1384906502,14), (1384729191,14), (1384551898,14), (1384374623,14), (1384197365,14), (1384020125,14), (1383842903,14), (1383665699,14), (1383488513,14), (1383311344,14), (1383134193,14), (1382957060,14), (1382779944,14), (1382602847,14), (1382425767,14),
    (1382248705,14), (1382071661,14), (1381894634,14), (1381717625,14), (1381540634,14), (1381363661,14), (1381186705,14), (1381009768,14), (1380832848,14), (1380655945,14), (1380479061,14), (1380302194,14), (1380125345,14), (1379948513,14), (1379771700,14), (1379594904,14),
    (1379418126,14), (1379241365,14), (1379064622,14), (1378887897,14), (1378711190,14), (1378534500,14), (1378357828,14), (1378181174,14), (1378004538,14), (1377827919,14), (1377651318,14), (1377474734,14), (1377298169,14), (1377121621,14), (1376945090,14), (1376768578,14),
    (1376592083,14), (1376415605,14), (1376239146,14), (1376062704,14), (1375886279,14), (1375709873,14), (1375533484,14), (1375357112,14), (1375180759,14), (1375004423,14), (1374828104,14), (1374651804,14), (1374475521,14), (1374299255,14), (1374123007,14), (1373946777,14),
    (1373770565,14), (1373594370,14), (1373418193,14), (1373242033,14), (1373065891,14), (1372889767,14), (1372713660,14), (1372537571,14), (1372361499,14), (1372185446,14), (1372009409,14), (1371833391,14), (1371657390,14), (1371481406,14), (1371305440,14), (1371129492,14),
    (1370953561,14), (1370777648,14), (1370601753,14), (1370425875,14), (1370250015,14), (1370074172,14), (1369898347,14), (1369722539,14), (1369546749,14), (1369370977,14), (1369195222,14), (1369019485,14), (1368843765,14), (1368668063,14), (1368492378,14), (1368316711,14),
    (1368141062,14), (1367965430,14), (1367789815,14), (1367614218,14), (1367438639,14), (1367263077,14), (1367087533,14), (1366912006,14), (1366736497,14), (1366561006,14), (1366385531,14), (1366210075,14), (1366034636,14), (1365859214,14), (1365683810,14), (1365508424,14),
    (1365333055,14), (1365157703,14), (1364982369,14), (1364807053,14), (1364631754,14), (1364456472,14), (1364281208,14), (1364105962,14), (1363930733,14), (1363755521,14), (1363580327,14), (1363405150,14), (1363229991,14), (1363054850,14), (1362879726,14), (1362704619,14),
    (1362529530,14), (1362354458,14), (1362179404,14), (1362004367,14), (1361829348,14), (1361654346,14), (1361479361,14), (1361304394,14), (1361129445,14), (1360954513,14), (1360779598,14), (1360604701,14), (1360429821,14), (1360254959,14), (1360080114,14), (1359905286,14),
    (1359730476,14), (1359555684,14), (1359380908,14), (1359206151,14), (1359031410,14), (1358856687,14), (1358681982,14), (1358507294,14), (1358332623,14), (1358157969,14), (1357983334,14), (1357808715,14), (1357634114,14), (1357459530,14), (1357284964,14), (1357110415,14),
    (1356935883,14), (1356761369,14), (1356586872,14), (1356412393,14), (1356237931,14), (1356063486,14), (1355889059,14), (1355714649,14), (1355540256,14), (1355365881,14), (1355191523,14), (1355017183,14), (1354842859,14), (1354668554,14), (1354494265,14), (1354319994,14),
    (1354145740,14), (1353971504,14), (1353797285,14), (1353623083,14), (1353448899,14), (1353274732,14), (1353100582,14), (1352926449,14), (1352752334,14), (1352578236,14), (1352404156,14), (1352230093,14), (1352056047,14), (1351882019,14), (1351708007,14), (1351534013,14),
    (1351360037,14), (1351186077,14), (1351012135,14), (1350838211,14), (1350664303,14), (1350490413,14), (1350316540,14), (1350142685,14), (1349968846,14), (1349795025,14), (1349621222,14), (1349447435,14), (1349273666,14), (1349099914,14), (1348926179,14), (1348752462,14),
    (1348578762,14), (1348405079,14), (1348231413,14), (1348057765,14), (1347884134,14), (1347710520,14), (1347536924,14), (1347363344,14), (1347189782,14), (1347016237,14), (1346842710,14), (1346669199,14), (1346495706,14), (1346322230,14), (1346148771,14), (1345975330,14),
    (1345801905,14), (1345628498,14), (1345455108,14), (1345281736,14), (1345108380,14), (1344935042,14), (1344761721,14), (1344588417,14), (1344415131,14), (1344241861,14), (1344068609,14), (1343895374,14), (1343722156,14), (1343548955,14), (1343375772,14), (1343202606,14),
    (1343029457,14), (1342856325,14), (1342683210,14), (1342510112,14), (1342337032,14), (1342163969,14), (1341990922,14), (1341817894,14), (1341644882,14), (1341471887,14), (1341298910,14), (1341125949,14), (1340953006,14), (1340780080,14), (1340607171,14), (1340434280,14),
    (1340261405,14), (1340088547,14), (1339915707,14), (1339742884,14), (1339570078,14), (1339397289,14), (1339224517,14), (1339051762,14), (1338879025,14), (1338706304,14), (1338533601,14), (1338360915,14), (1338188246,14), (1338015594,14), (1337842959,14), (1337670341,14),
    (1337497740,14), (1337325156,14), (1337152590,14), (1336980040,14), (1336807508,14), (1336634993,14), (1336462495,14), (1336290013,14), (1336117549,14), (1335945102,14), (1335772673,14), (1335600260,14), (1335427864,14), (1335255485,14), (1335083124,14), (1334910779,14),
    (1334738452,14), (1334566141,14), (1334393848,14), (1334221571,14), (1334049312,14), (1333877070,14), (1333704845,14), (1333532636,14), (1333360445,14), (1333188271,14), (1333016114,14), (1332843974,14), (1332671851,14), (1332499745,14), (1332327656,14), (1332155584,14),
    (1331983529,14), (1331811491,14), (1331639470,14), (1331467466,14), (1331295479,14), (1331123509,14), (1330951557,14), (1330779621,14), (1330607702,14), (1330435800,14), (1330263915,14), (1330092047,14), (1329920196,14), (1329748362,14), (1329576545,14), (1329404745,14),
    (1329232962,14), (1329061196,14), (1328889447,14), (1328717715,14), (1328546000,14), (1328374302,14), (1328202620,14), (1328030956,14), (1327859309,14), (1327687678,14), (1327516065,14), (1327344469,14), (1327172889,14), (1327001326,14), (1326829781,14), (1326658252,14),
    (1326486740,14), (1326315246,14), (1326143768,14), (1325972307,14), (1325800863,14), (1325629436,14), (1325458025,14), (1325286632,14), (1325115256,14), (1324943896,14), (1324772554,14), (1324601228,14), (1324429920,14), (1324258628,14), (1324087353,14), (1323916095,14),
    (1323744854,14), (1323573630,14), (1323402422,14), (1323231232,14), (1323060058,14), (1322888902,14), (1322717762,14), (1322546639,14), (1322375533,14), (1322204444,14), (1322033371,14), (1321862316,14), (1321691277,14), (1321520256,14), (1321349251,14), (1321178263,14),
    (1321007292,14), (1320836338,14), (1320665400,14), (1320494480,14), (1320323576,14), (1320152689,14), (1319981819,14), (1319810966,14), (1319640129,14), (1319469310,14), (1319298507,14), (1319127721,14), (1318956952,14), (1318786200,14), (1318615465,14), (1318444746,14),
    (1318274044,14), (1318103360,14), (1317932691,14), (1317762040,14), (1317591406,14), (1317420788,14), (1317250187,14), (1317079603,14), (1316909036,14), (1316738485,14), (1316567951,14), (1316397434,14), (1316226934,14), (1316056451,14), (1315885984,14), (1315715534,14),
    (1315545101,14), (1315374685,14), (1315204286,14), (1315033903,14), (1314863537,14), (1314693188,14), (1314522855,14), (1314352540,14), (1314182241,14), (1314011959,14), (1313841693,14), (1313671445,14), (1313501213,14), (1313330998,14), (1313160799,14), (1312990617,14),
    (1312820453,14), (1312650304,14), (1312480173,14), (1312310058,14), (1312139960,14), (1311969879,14), (1311799814,14), (1311629766,14), (1311459735,14), (1311289721,14), (1311119723,14), (1310949742,14), (1310779778,14), (1310609830,14), (1310439899,14), (1310269985,14),
    (1310100088,14), (1309930207,14), (1309760343,14), (1309590495,14), (1309420665,14), (1309250851,14), (1309081053,14), (1308911273,14), (1308741509,14), (1308571761,14), (1308402031,14), (1308232317,14), (1308062619,14), (1307892939,14), (1307723275,14), (1307553627,14),
    (1307383997,14), (1307214383,14), (1307044785,14), (1306875205,14), (1306705641,14), (1306536093,14), (1306366562,14), (1306197048,14), (1306027551,14), (1305858070,14), (1305688606,14), (1305519158,14), (1305349727,14), (1305180313,14), (1305010915,14), (1304841534,14),
    (1304672170,14), (1304502822,14), (1304333491,14), (1304164176,14), (1303994878,14), (1303825597,14), (1303656332,14), (1303487084,14), (1303317852,14), (1303148637,14), (1302979439,14), (1302810257,14), (1302641092,14), (1302471943,14), (1302302811,14), (1302133695,14),
    (1301964597,14), (1301795514,14), (1301626448,14), (1301457399,14), (1301288367,14), (1301119351,14), (1300950351,14), (1300781368,14), (1300612402,14), (1300443452,14), (1300274519,14), (1300105602,14), (1299936702,14), (1299767819,14), (1299598952,14), (1299430101,14),
    (1299261267,14), (1299092450,14), (1298923649,14), (1298754865,14), (1298586097,14), (1298417345,14), (1298248611,14), (1298079893,14), (1297911191,14), (1297742506,14), (1297573837,14), (1297405185,14), (1297236549,14), (1297067930,14), (1296899327,14), (1296730741,14),
    (1296562172,14), (1296393619,14), (1296225082,14), (1296056562,14), (1295888058,14), (1295719571,14), (1295551100,14), (1295382646,14), (1295214209,14), (1295045787,14), (1294877383,14), (1294708994,14), (1294540623,14), (1294372267,14), (1294203928,14), (1294035606,14),
    (1293867300,14), (1293699011,14), (1293530738,14), (1293362481,14), (1293194241,14), (1293026017,14), (1292857810,14), (1292689620,14), (1292521445,14), (1292353287,14), (1292185146,14), (1292017021,14), (1291848913,14), (1291680820,14), (1291512745,14), (1291344685,14),
    (1291176643,14), (1291008616,14), (1290840606,14), (1290672613,14), (1290504636,14), (1290336675,14), (1290168731,14), (1290000803,14), (1289832891,14), (1289664996,14), (1289497117,14), (1289329255,14), (1289161409,14), (1288993580,14), (1288825766,14), (1288657970,14),
    (1288490189,14), (1288322425,14), (1288154678,14), (1287986947,14), (1287819232,14), (1287651533,14), (1287483851,14), (1287316185,14), (1287148536,14), (1286980903,14), (1286813287,14), (1286645686,14), (1286478102,14), (1286310535,14), (1286142984,14), (1285975449,14),
    (1285807930,14), (1285640428,14), (1285472942,14), (1285305473,14), (1285138020,14), (1284970583,14), (1284803162,14), (1284635758,14), (1284468371,14), (1284300999,14), (1284133644,14), (1283966305,14), (1283798983,14), (1283631676,14), (1283464387,14), (1283297113,14),
    (1283129856,14), (1282962615,14), (1282795390,14), (1282628182,14), (1282460990,14), (1282293814,14), (1282126655,14), (1281959511,14), (1281792385,14), (1281625274,14), (1281458180,14), (1281291102,14), (1281124040,14), (1280956995,14), (1280789965,14), (1280622952,14),
    (1280455956,14), (1280288976,14), (1280122011,14), (1279955064,14), (1279788132,14), (1279621217,14), (1279454318,14), (1279287435,14), (1279120568,14), (1278953718,14), (1278786884,14), (1278620066,14), (1278453265,14), (1278286479,14), (1278119710,14), (1277952958,14),
    (1277786221,14), (1277619501,14), (1277452796,14), (1277286109,14), (1277119437,14), (1276952781,14), (1276786142,14), (1276619519,14), (1276452912,14), (1276286322,14), (1276119747,14), (1275953189,14), (1275786647,14), (1275620121,14), (1275453612,14), (1275287118,14),
    (1275120641,14), (1274954180,14), (1274787736,14), (1274621307,14), (1274454894,14), (1274288498,14), (1274122118,14), (1273955754,14), (1273789407,14), (1273623075,14), (1273456760,14), (1273290461,14), (1273124178,14), (1272957911,14), (1272791660,14), (1272625426,14),
    (1272459207,14), (1272293005,14), (1272126819,14), (1271960649,14), (1271794495,14), (1271628358,14), (1271462236,14), (1271296131,14), (1271130042,14), (1270963969,14), (1270797912,14), (1270631871,14), (1270465846,14), (1270299838,14), (1270133845,14), (1269967869,14),
    (1269801909,14), (1269635965,14), (1269470037,14), (1269304125,14), (1269138229,14), (1268972350,14), (1268806486,14), (1268640639,14), (1268474808,14), (1268308993,14), (1268143193,14), (1267977410,14), (1267811644,14), (1267645893,14), (1267480158,14), (1267314439,14),
    (1267148737,14), (1266983050,14), (1266817380,14), (1266651726,14), (1266486087,14), (1266320465,14), (1266154859,14), (1265989269,14), (1265823695,14), (1265658137,14), (1265492595,14), (1265327070,14), (1265161560,14), (1264996066,14), (1264830589,14), (1264665127,14),
    (1264499682,14), (1264334252,14), (1264168839,14), (1264003441,14), (1263838060,14), (1263672694,14), (1263507345,14), (1263342012,14), (1263176695,14), (1263011393,14), (1262846108,14), (1262680839,14), (1262515586,14), (1262350349,14), (1262185127,14), (1262019922,14),
    (1261854733,14), (1261689560,14), (1261524403,14), (1261359262,14), (1261194137,14), (1261029028,14), (1260863934,14), (1260698857,14), (1260533796,14), (1260368751,14), (1260203722,14), (1260038709,14), (1259873711,14), (1259708730,14), (1259543765,14), (1259378816,14),
    (1259213882,14), (1259048965,14), (1258884064,14), (1258719178,14), (1258554309,14), (1258389455,14), (1258224618,14), (1258059796,14), (1257894991,14), (1257730201,14), (1257565427,14), (1257400669,14), (1257235928,14), (1257071202,14), (1256906492,14), (1256741798,14),
    (1256577120,14), (1256412457,14), (1256247811,14), (1256083181,14), (1255918567,14), (1255753968,14), (1255589386,14), (1255424819,14), (1255260268,14), (1255095733,14), (1254931215,14), (1254766712,14), (1254602225,14), (1254437753,14), (1254273298,14), (1254108859,14),
    (1253944435,14), (1253780028,14), (1253615636,14), (1253451260,14), (1253286900,14), (1253122556,14), (1252958228,14), (1252793916,14), (1252629620,14), (1252465339,14), (1252301075,14), (1252136826,14), (1251972593,14), (1251808376,14), (1251644175,14), (1251479990,14),
    (1251315820,14), (1251151667,14), (1250987529,14), (1250823407,14), (1250659301,14), (1250495211,14), (1250331137,14), (1250167078,14), (1250003035,14), (1249839009,14), (1249674998,14), (1249511003,14), (1249347023,14), (1249183060,14), (1249019112,14), (1248855181,14),
    (1248691265,14), (1248527364,14), (1248363480,14), (1248199612,14), (1248035759,14), (1247871922,14), (1247708101,14), (1247544296,14), (1247380506,14), (1247216733,14), (1247052975,14), (1246889233,14), (1246725506,14), (1246561796,14), (1246398101,14), (1246234422,14),
    (1246070759,14), (1245907112,14), (1245743480,14), (1245579865,14), (1245416265,14), (1245252680,14), (1245089112,14), (1244925559,14), (1244762022,14), (1244598501,14), (1244434996,14), (1244271506,14), (1244108033,14), (1243944574,14), (1243781132,14), (1243617706,14),
    (1243454295,14), (1243290900,14), (1243127520,14), (1242964157,14), (1242800809,14), (1242637477,14), (1242474160,14), (1242310860,14), (1242147575,14), (1241984306,14), (1241821052,14), (1241657815,14), (1241494593,14), (1241331386,14), (1241168196,14), (1241005021,14),
    (1240841862,14), (1240678718,14), (1240515591,14), (1240352479,14), (1240189382,14), (1240026302,14), (1239863237,14), (1239700188,14), (1239537154,14), (1239374136,14), (1239211134,14), (1239048148,14), (1238885177,14), (1238722222,14), (1238559283,14), (1238396359,14),
    (1238233451,14), (1238070559,14), (1237907682,14), (1237744821,14), (1237581976,14), (1237419146,14), (1237256332,14), (1237093534,14), (1236930751,14), (1236767984,14), (1236605233,14), (1236442497,14), (1236279777,14), (1236117073,14), (1235954384,14), (1235791711,14),
    (1235629053,14), (1235466412,14), (1235303785,14), (1235141175,14), (1234978580,14), (1234816001,14), (1234653437,14), (1234490889,14), (1234328356,14), (1234165840,14), (1234003338,14), (1233840853,14), (1233678383,14), (1233515929,14), (1233353490,14), (1233191067,14),
    (1233028659,14), (1232866267,14), (1232703891,14), (1232541530,14), (1232379185,14), (1232216856,14), (1232054542,14), (1231892243,14), (1231729961,14), (1231567694,14), (1231405442,14), (1231243206,14), (1231080986,14), (1230918781,14), (1230756591,14), (1230594418,14),
    (1230432260,14), (1230270117,14), (1230107990,14), (1229945879,14), (1229783783,14), (1229621702,14), (1229459638,14), (1229297589,14), (1229135555,14), (1228973537,14), (1228811534,14), (1228649547,14), (1228487576,14), (1228325620,14), (1228163679,14), (1228001755,14),
    (1227839845,14), (1227677952,14), (1227516073,14), (1227354211,14), (1227192363,14), (1227030532,14), (1226868715,14), (1226706915,14), (1226545130,14), (1226383360,14), (1226221606,14), (1226059867,14), (1225898144,14), (1225736437,14), (1225574745,14), (1225413068,14),
    (1225251407,14), (1225089761,14), (1224928131,14), (1224766517,14), (1224604918,14), (1224443334,14), (1224281766,14), (1224120213,14), (1223958676,14), (1223797154,14), (1223635648,14), (1223474157,14), (1223312682,14), (1223151222,14), (1222989778,14), (1222828349,14),
    (1222666936,14), (1222505538,14), (1222344155,14), (1222182788,14), (1222021437,14), (1221860101,14), (1221698780,14), (1221537475,14), (1221376185,14), (1221214910,14), (1221053652,14), (1220892408,14), (1220731180,14), (1220569967,14), (1220408770,14), (1220247589,14),
    (1220086422,14), (1219925271,14), (1219764136,14), (1219603016,14), (1219441911,14), (1219280822,14), (1219119748,14), (1218958690,14), (1218797647,14), (1218636619,14), (1218475607,14), (1218314610,14), (1218153629,14), (1217992663,14), (1217831713,14), (1217670777,14),
    (1217509858,14), (1217348953,14), (1217188064,14), (1217027191,14), (1216866332,14), (1216705489,14), (1216544662,14), (1216383850,14), (1216223053,14), (1216062272,14), (1215901506,14), (1215740755,14), (1215580020,14), (1215419300,14), (1215258596,14), (1215097906,14),
    (1214937233,14), (1214776574,14), (1214615931,14), (1214455303,14), (1214294691,14), (1214134094,14), (1213973512,14), (1213812946,14), (1213652395,14), (1213491859,14), (1213331339,14), (1213170834,14), (1213010344,14), (1212849869,14), (1212689410,14), (1212528967,14),
    (1212368538,14), (1212208125,14), (1212047727,14), (1211887345,14), (1211726978,14), (1211566626,14), (1211406289,14), (1211245968,14), (1211085662,14), (1210925372,14), (1210765096,14), (1210604836,14), (1210444592,14), (1210284362,14), (1210124148,14), (1209963949,14),
    (1209803766,14), (1209643597,14), (1209483444,14), (1209323307,14), (1209163184,14), (1209003077,14), (1208842985,14), (1208682908,14), (1208522847,14), (1208362801,14), (1208202770,14), (1208042755,14), (1207882754,14), (1207722769,14), (1207562799,14), (1207402845,14),
    (1207242906,14), (1207082982,14), (1206923073,14), (1206763179,14), (1206603301,14), (1206443438,14), (1206283590,14), (1206123757,14), (1205963940,14), (1205804138,14), (1205644351,14), (1205484579,14), (1205324823,14), (1205165082,14), (1205005356,14), (1204845645,14),
    (1204685949,14), (1204526269,14), (1204366604,14), (1204206954,14), (1204047319,14), (1203887700,14), (1203728095,14), (1203568506,14), (1203408932,14), (1203249374,14), (1203089830,14), (1202930302,14), (1202770789,14), (1202611291,14), (1202451808,14), (1202292340,14),
    (1202132888,14), (1201973451,14), (1201814029,14), (1201654622,14), (1201495230,14), (1201335854,14), (1201176492,14), (1201017146,14), (1200857815,14), (1200698499,14), (1200539199,14), (1200379913,14), (1200220643,14), (1200061387,14), (1199902147,14), (1199742922,14),
    (1199583713,14), (1199424518,14), (1199265338,14), (1199106174,14), (1198947025,14), (1198787891,14), (1198628772,14), (1198469668,14), (1198310579,14), (1198151506,14), (1197992447,14), (1197833404,14), (1197674376,14), (1197515363,14), (1197356365,14), (1197197382,14),
    (1197038414,14), (1196879462,14), (1196720524,14), (1196561602,14), (1196402694,14), (1196243802,14), (1196084925,14), (1195926063,14), (1195767216,14), (1195608384,14), (1195449568,14), (1195290766,14), (1195131979,14), (1194973208,14), (1194814452,14), (1194655710,14),
    (1194496984,14), (1194338273,14), (1194179577,14), (1194020896,14), (1193862230,14), (1193703579,14), (1193544943,14), (1193386322,14), (1193227717,14), (1193069126,14), (1192910551,14), (1192751990,14), (1192593445,14), (1192434914,14), (1192276399,14), (1192117899,14),
    (1191959413,14), (1191800943,14), (1191642488,14), (1191484048,14), (1191325623,14), (1191167213,14), (1191008818,14), (1190850437,14), (1190692073,14), (1190533723,14), (1190375388,14), (1190217068,14), (1190058763,14), (1189900473,14), (1189742198,14), (1189583938,14),
    (1189425693,14), (1189267463,14), (1189109249,14), (1188951049,14), (1188792864,14), (1188634694,14), (1188476539,14), (1188318399,14), (1188160274,14), (1188002165,14), (1187844070,14), (1187685990,14), (1187527925,14), (1187369875,14), (1187211840,14), (1187053820,14),
    (1186895815,14), (1186737825,14), (1186579850,14), (1186421890,14), (1186263945,14), (1186106015,14), (1185948099,14), (1185790199,14), (1185632314,14), (1185474444,14), (1185316588,14), (1185158748,14), (1185000922,14), (1184843112,14), (1184685316,14), (1184527536,14),
    (1184369770,14), (1184212019,14), (1184054283,14), (1183896563,14), (1183738857,14), (1183581166,14), (1183423490,14), (1183265828,14), (1183108182,14), (1182950551,14), (1182792935,14), (1182635333,14), (1182477746,14), (1182320175,14), (1182162618,14), (1182005076,14),
    (1181847549,14), (1181690037,14), (1181532540,14), (1181375058,14), (1181217591,14), (1181060138,14), (1180902701,14), (1180745278,14), (1180587871,14), (1180430478,14), (1180273100,14), (1180115737,14), (1179958389,14), (1179801055,14), (1179643737,14), (1179486433,14),
    (1179329145,14), (1179171871,14), (1179014612,14), (1178857368,14), (1178700139,14), (1178542924,14), (1178385725,14), (1178228540,14), (1178071370,14), (1177914215,14), (1177757075,14), (1177599950,14), (1177442840,14), (1177285744,14), (1177128664,14), (1176971598,14),
    (1176814547,14), (1176657511,14), (1176500489,14), (1176343483,14), (1176186491,14), (1176029514,14), (1175872552,14), (1175715605,14), (1175558673,14), (1175401755,14), (1175244853,14), (1175087965,14), (1174931092,14), (1174774234,14), (1174617390,14), (1174460561,14),
    (1174303748,14), (1174146949,14), (1173990164,14), (1173833395,14), (1173676640,14), (1173519900,14), (1173363175,14), (1173206465,14), (1173049770,14), (1172893089,14), (1172736423,14), (1172579772,14), (1172423136,14), (1172266514,14), (1172109907,14), (1171953315,14),
    (1171796738,14), (1171640176,14), (1171483628,14), (1171327095,14), (1171170577,14), (1171014074,14), (1170857585,14), (1170701111,14), (1170544652,14), (1170388208,14), (1170231778,14), (1170075363,14), (1169918963,14), (1169762578,14), (1169606207,14), (1169449851,14),
    (1169293510,14), (1169137184,14), (1168980872,14), (1168824575,14), (1168668293,14), (1168512026,14), (1168355773,14), (1168199535,14), (1168043311,14), (1167887103,14), (1167730909,14), (1167574730,14), (1167418566,14), (1167262416,14), (1167106281,14), (1166950161,14),
    (1166794055,14), (1166637964,14), (1166481888,14), (1166325826,14), (1166169780,14), (1166013748,14), (1165857730,14), (1165701727,14), (1165545739,14), (1165389766,14), (1165233807,14), (1165077863,14), (1164921934,14), (1164766020,14), (1164610120,14), (1164454234,14),
    (1164298364,14), (1164142508,14), (1163986667,14), (1163830840,14), (1163675028,14), (1163519231,14), (1163363448,14), (1163207681,14), (1163051927,14), (1162896189,14), (1162740465,14), (1162584755,14), (1162429061,14), (1162273381,14), (1162117715,14), (1161962065,14),
    (1161806429,14), (1161650807,14), (1161495200,14), (1161339608,14), (1161184031,14), (1161028468,14), (1160872919,14), (1160717386,14), (1160561867,14), (1160406362,14), (1160250872,14), (1160095397,14), (1159939937,14), (1159784491,14), (1159629059,14), (1159473643,14),
    (1159318241,14), (1159162853,14), (1159007480,14), (1158852122,14), (1158696778,14), (1158541449,14), (1158386134,14), (1158230834,14), (1158075549,14), (1157920278,14), (1157765022,14), (1157609781,14), (1157454554,14), (1157299341,14), (1157144143,14), (1156988960,14),
    (1156833791,14), (1156678637,14), (1156523498,14), (1156368373,14), (1156213262,14), (1156058166,14), (1155903085,14), (1155748018,14), (1155592966,14), (1155437929,14), (1155282905,14), (1155127897,14), (1154972903,14), (1154817924,14), (1154662959,14), (1154508008,14),
    (1154353073,14), (1154198151,14), (1154043245,14), (1153888352,14), (1153733475,14), (1153578612,14), (1153423763,14), (1153268929,14), (1153114109,14), (1152959304,14), (1152804514,14), (1152649738,14), (1152494976,14), (1152340230,14), (1152185497,14), (1152030779,14),
    (1151876076,14), (1151721387,14), (1151566712,14), (1151412053,14), (1151257407,14), (1151102776,14), (1150948160,14), (1150793558,14), (1150638971,14), (1150484398,14), (1150329839,14), (1150175295,14), (1150020766,14), (1149866251,14), (1149711750,14), (1149557264,14),
    (1149402793,14), (1149248336,14), (1149093893,14), (1148939465,14), (1148785051,14), (1148630652,14), (1148476267,14), (1148321897,14), (1148167541,14), (1148013200,14), (1147858873,14), (1147704560,14), (1147550262,14), (1147395979,14), (1147241710,14), (1147087455,14),
    (1146933215,14), (1146778989,14), (1146624778,14), (1146470581,14), (1146316398,14), (1146162230,14), (1146008077,14), (1145853937,14), (1145699813,14), (1145545702,14), (1145391606,14), (1145237525,14), (1145083458,14), (1144929405,14), (1144775367,14), (1144621343,14),
    (1144467334,14), (1144313339,14), (1144159358,14), (1144005392,14), (1143851440,14), (1143697503,14), (1143543580,14), (1143389671,14), (1143235777,14), (1143081897,14), (1142928032,14), (1142774181,14), (1142620344,14), (1142466522,14), (1142312714,14), (1142158921,14),
    (1142005142,14), (1141851377,14), (1141697627,14), (1141543891,14), (1141390169,14), (1141236462,14), (1141082769,14), (1140929090,14), (1140775426,14), (1140621776,14), (1140468141,14), (1140314520,14), (1140160913,14), (1140007321,14), (1139853743,14), (1139700179,14),
    (1139546630,14), (1139393095,14), (1139239574,14), (1139086068,14), (1138932576,14), (1138779098,14), (1138625635,14), (1138472186,14), (1138318752,14), (1138165331,14), (1138011925,14), (1137858534,14), (1137705156,14), (1137551793,14), (1137398445,14), (1137245110,14),
    (1137091790,14), (1136938484,14), (1136785193,14), (1136631916,14), (1136478653,14), (1136325405,14), (1136172170,14), (1136018950,14), (1135865745,14), (1135712554,14), (1135559377,14), (1135406214,14), (1135253065,14), (1135099931,14), (1134946811,14), (1134793706,14),
    (1134640615,14), (1134487538,14), (1134334475,14), (1134181426,14), (1134028392,14), (1133875372,14), (1133722367,14), (1133569375,14), (1133416398,14), (1133263435,14), (1133110487,14), (1132957552,14), (1132804632,14), (1132651726,14), (1132498835,14), (1132345958,14),
    (1132193095,14), (1132040246,14), (1131887411,14), (1131734591,14), (1131581785,14), (1131428993,14), (1131276215,14), (1131123452,14), (1130970703,14), (1130817968,14), (1130665247,14), (1130512541,14), (1130359849,14), (1130207171,14), (1130054507,14), (1129901857,14),
    (1129749222,14), (1129596601,14), (1129443994,14), (1129291402,14), (1129138823,14), (1128986259,14), (1128833709,14), (1128681173,14), (1128528651,14), (1128376144,14), (1128223651,14), (1128071172,14), (1127918707,14), (1127766256,14), (1127613820,14), (1127461397,14),
    (1127308989,14), (1127156595,14), (1127004216,14), (1126851850,14), (1126699499,14), (1126547161,14), (1126394838,14), (1126242530,14), (1126090235,14), (1125937954,14), (1125785688,14), (1125633436,14), (1125481198,14), (1125328974,14), (1125176764,14), (1125024569,14),
    (1124872388,14), (1124720220,14), (1124568067,14), (1124415928,14), (1124263804,14), (1124111693,14), (1123959596,14), (1123807514,14), (1123655446,14), (1123503392,14), (1123351352,14), (1123199326,14), (1123047314,14), (1122895317,14), (1122743334,14), (1122591364,14),
    (1122439409,14), (1122287468,14), (1122135541,14), (1121983628,14), (1121831730,14), (1121679845,14), (1121527975,14), (1121376118,14), (1121224276,14), (1121072448,14), (1120920634,14), (1120768834,14), (1120617048,14), (1120465276,14), (1120313519,14), (1120161775,14),
    (1120010046,14), (1119858330,14), (1119706629,14), (1119554942,14), (1119403269,14), (1119251610,14), (1119099965,14), (1118948334,14), (1118796717,14), (1118645115,14), (1118493526,14), (1118341951,14), (1118190391,14), (1118038844,14), (1117887312,14), (1117735794,14),
    (1117584289,14), (1117432799,14), (1117281323,14), (1117129861,14), (1116978413,14), (1116826979,14), (1116675559,14), (1116524153,14), (1116372761,14), (1116221384,14), (1116070020,14), (1115918670,14), (1115767335,14), (1115616013,14), (1115464705,14), (1115313412,14),
    (1115162132,14), (1115010867,14), (1114859615,14), (1114708378,14), (1114557154,14), (1114405945,14), (1114254750,14), (1114103568,14), (1113952401,14), (1113801247,14), (1113650108,14), (1113498983,14), (1113347871,14), (1113196774,14), (1113045691,14), (1112894621,14),
    (1112743566,14), (1112592525,14), (1112441497,14), (1112290484,14), (1112139485,14), (1111988499,14), (1111837528,14), (1111686571,14), (1111535627,14), (1111384698,14), (1111233782,14), (1111082881,14), (1110931993,14), (1110781120,14), (1110630260,14), (1110479415,14),
    (1110328583,14), (1110177765,14), (1110026962,14), (1109876172,14), (1109725396,14), (1109574634,14), (1109423886,14), (1109273153,14), (1109122433,14), (1108971727,14), (1108821034,14), (1108670356,14), (1108519692,14), (1108369042,14), (1108218406,14), (1108067783,14),
    (1107917175,14), (1107766580,14), (1107616000,14), (1107465433,14), (1107314881,14), (1107164342,14), (1107013817,14), (1106863306,14), (1106712809,14), (1106562326,14), (1106411857,14), (1106261402,14), (1106110960,14), (1105960533,14), (1105810119,14), (1105659720,14),
    (1105509334,14), (1105358962,14), (1105208604,14), (1105058260,14), (1104907930,14), (1104757614,14), (1104607312,14), (1104457023,14), (1104306749,14), (1104156488,14), (1104006241,14), (1103856009,14), (1103705790,14), (1103555585,14), (1103405393,14), (1103255216,14),
    (1103105053,14), (1102954903,14), (1102804767,14), (1102654645,14), (1102504537,14), (1102354443,14), (1102204363,14), (1102054297,14), (1101904244,14), (1101754205,14), (1101604180,14), (1101454169,14), (1101304172,14), (1101154189,14), (1101004220,14), (1100854264,14),
    (1100704322,14), (1100554394,14), (1100404480,14), (1100254580,14), (1100104694,14), (1099954821,14), (1099804962,14), (1099655118,14), (1099505287,14), (1099355469,14), (1099205666,14), (1099055876,14), (1098906101,14), (1098756339,14), (1098606590,14), (1098456856,14),
    (1098307136,14), (1098157429,14), (1098007736,14), (1097858057,14), (1097708392,14), (1097558740,14), (1097409103,14), (1097259479,14), (1097109869,14), (1096960272,14), (1096810690,14), (1096661121,14), (1096511566,14), (1096362025,14), (1096212498,14), (1096062984,14),
    (1095913485,14), (1095763999,14), (1095614526,14), (1095465068,14), (1095315623,14), (1095166192,14), (1095016775,14), (1094867372,14), (1094717983,14), (1094568607,14), (1094419245,14), (1094269896,14), (1094120562,14), (1093971241,14), (1093821934,14), (1093672641,14),
    (1093523361,14), (1093374096,14), (1093224844,14), (1093075605,14), (1092926381,14), (1092777170,14), (1092627973,14), (1092478790,14), (1092329620,14), (1092180465,14), (1092031322,14), (1091882194,14), (1091733080,14), (1091583979,14), (1091434891,14), (1091285818,14),
    (1091136758,14), (1090987712,14), (1090838680,14), (1090689661,14), (1090540657,14), (1090391666,14), (1090242688,14), (1090093724,14), (1089944774,14), (1089795838,14), (1089646915,14), (1089498007,14), (1089349111,14), (1089200230,14), (1089051362,14), (1088902508,14),
    (1088753668,14), (1088604841,14), (1088456028,14), (1088307228,14), (1088158443,14), (1088009671,14), (1087860912,14), (1087712168,14), (1087563437,14), (1087414720,14), (1087266016,14), (1087117326,14), (1086968650,14), (1086819987,14), (1086671338,14), (1086522703,14),
    (1086374081,14), (1086225473,14), (1086076879,14), (1085928298,14), (1085779731,14), (1085631178,14), (1085482638,14), (1085334112,14), (1085185600,14), (1085037101,14), (1084888616,14), (1084740145,14), (1084591687,14), (1084443243,14), (1084294812,14), (1084146395,14),
    (1083997992,14), (1083849602,14), (1083701226,14), (1083552864,14), (1083404515,14), (1083256180,14), (1083107858,14), (1082959550,14), (1082811256,14), (1082662975,14), (1082514708,14), (1082366455,14), (1082218215,14), (1082069989,14), (1081921776,14), (1081773577,14),
    (1081625391,14), (1081477220,14), (1081329061,14), (1081180917,14), (1081032786,14), (1080884668,14), (1080736564,14), (1080588474,14), (1080440397,14), (1080292334,14), (1080144285,14), (1079996249,14), (1079848226,14), (1079700218,14), (1079552222,14), (1079404241,14),
    (1079256273,14), (1079108318,14), (1078960377,14), (1078812450,14), (1078664536,14), (1078516636,14), (1078368749,14), (1078220876,14), (1078073016,14), (1077925170,14), (1077777338,14), (1077629519,14), (1077481714,14), (1077333922,14), (1077186143,14), (1077038379,14),
    (1076890628,14), (1076742890,14), (1076595166,14), (1076447455,14), (1076299758,14), (1076152075,14), (1076004405,14), (1075856748,14), (1075709105,14), (1075561476,14), (1075413860,14), (1075266258,14), (1075118669,14), (1074971093,14), (1074823532,14), (1074675983,14),
    (1074528449,14), (1074380927,14), (1074233420,14), (1074085925,14), (1073938445,14), (1073790977,14), (1073643523,14), (1073496083,14), (1073348656,14), (1073201243,14), (1073053843,14), (1072906457,14), (1072759084,14), (1072611725,14), (1072464379,14), (1072317047,14),
    (1072169728,14), (1072022423,14), (1071875131,14), (1071727852,14), (1071580588,14), (1071433336,14), (1071286098,14), (1071138874,14), (1070991662,14), (1070844465,14), (1070697281,14), (1070550110,14), (1070402953,14), (1070255809,14), (1070108679,14), (1069961562,14),
    (1069814459,14), (1069667369,14), (1069520292,14), (1069373229,14), (1069226180,14), (1069079143,14), (1068932121,14), (1068785111,14), (1068638116,14), (1068491133,14), (1068344164,14), (1068197209,14), (1068050267,14), (1067903338,14), (1067756423,14), (1067609521,14),
    (1067462633,14), (1067315758,14), (1067168896,14), (1067022048,14), (1066875213,14), (1066728392,14), (1066581584,14), (1066434789,14), (1066288008,14), (1066141241,14), (1065994486,14), (1065847746,14), (1065701018,14), (1065554304,14), (1065407603,14), (1065260916,14),
    (1065114242,14), (1064967582,14), (1064820935,14), (1064674301,14), (1064527681,14), (1064381074,14), (1064234480,14), (1064087900,14), (1063941333,14), (1063794780,14), (1063648240,14), (1063501713,14), (1063355200,14), (1063208700,14), (1063062213,14), (1062915740,14),
    (1062769280,14), (1062622834,14), (1062476401,14), (1062329981,14), (1062183575,14), (1062037182,14), (1061890802,14), (1061744436,14), (1061598083,14), (1061451743,14), (1061305417,14), (1061159104,14), (1061012804,14), (1060866518,14), (1060720245,14), (1060573985,14),
    (1060427739,14), (1060281506,14), (1060135287,14), (1059989080,14), (1059842887,14), (1059696708,14), (1059550542,14), (1059404389,14), (1059258249,14), (1059112123,14), (1058966010,14), (1058819910,14), (1058673824,14), (1058527751,14), (1058381691,14), (1058235644,14),
    (1058089611,14), (1057943591,14), (1057797585,14), (1057651592,14), (1057505612,14), (1057359645,14), (1057213692,14), (1057067752,14), (1056921825,14), (1056775912,14), (1056630011,14), (1056484125,14), (1056338251,14), (1056192391,14), (1056046544,14), (1055900710,14),
    (1055754889,14), (1055609082,14), (1055463288,14), (1055317508,14), (1055171740,14), (1055025986,14), (1054880245,14), (1054734518,14), (1054588803,14), (1054443102,14), (1054297414,14), (1054151740,14), (1054006079,14), (1053860430,14), (1053714796,14), (1053569174,14),
    (1053423566,14), (1053277971,14), (1053132389,14), (1052986820,14), (1052841265,14), (1052695723,14), (1052550194,14), (1052404679,14), (1052259176,14), (1052113687,14), (1051968211,14), (1051822748,14), (1051677299,14), (1051531863,14), (1051386440,14), (1051241030,14),
    (1051095633,14), (1050950250,14), (1050804880,14), (1050659523,14), (1050514179,14), (1050368849,14), (1050223531,14), (1050078227,14), (1049932936,14), (1049787659,14), (1049642394,14), (1049497143,14), (1049351905,14), (1049206680,14), (1049061468,14), (1048916270,14),
    (1048771084,14), (1048625912,14), (1048480753,14), (1048335608,14), (1048190475,14), (1048045356,14), (1047900249,14), (1047755156,14), (1047610077,14), (1047465010,14), (1047319956,14), (1047174916,14), (1047029889,14), (1046884875,14), (1046739874,14), (1046594886,14),
    (1046449912,14), (1046304950,14), (1046160002,14), (1046015067,14), (1045870145,14), (1045725237,14), (1045580341,14), (1045435459,14), (1045290589,14), (1045145733,14), (1045000890,14), (1044856060,14), (1044711244,14), (1044566440,14), (1044421650,14), (1044276872,14),
    (1044132108,14), (1043987357,14), (1043842619,14), (1043697894,14), (1043553183,14), (1043408484,14), (1043263799,14), (1043119126,14), (1042974467,14), (1042829821,14), (1042685188,14), (1042540568,14), (1042395962,14), (1042251368,14), (1042106788,14), (1041962220,14),
    (1041817666,14), (1041673125,14), (1041528597,14), (1041384082,14), (1041239580,14), (1041095091,14), (1040950615,14), (1040806153,14), (1040661703,14), (1040517267,14), (1040372843,14), (1040228433,14), (1040084036,14), (1039939652,14), (1039795281,14), (1039650923,14),
    (1039506578,14), (1039362246,14), (1039217927,14), (1039073622,14), (1038929329,14), (1038785050,14), (1038640783,14), (1038496530,14), (1038352290,14), (1038208062,14), (1038063848,14), (1037919647,14), (1037775459,14), (1037631284,14), (1037487122,14), (1037342973,14),
    (1037198837,14), (1037054714,14), (1036910604,14), (1036766508,14), (1036622424,14), (1036478353,14), (1036334296,14), (1036190251,14), (1036046219,14), (1035902201,14), (1035758195,14), (1035614203,14), (1035470223,14), (1035326257,14), (1035182304,14), (1035038363,14),
    (1034894436,14), (1034750521,14), (1034606620,14), (1034462732,14), (1034318856,14), (1034174994,14), (1034031145,14), (1033887309,14), (1033743485,14), (1033599675,14), (1033455878,14), (1033312093,14), (1033168322,14), (1033024564,14), (1032880819,14), (1032737086,14),
    (1032593367,14), (1032449661,14), (1032305967,14), (1032162287,14), (1032018620,14), (1031874965,14), (1031731324,14), (1031587696,14), (1031444080,14), (1031300478,14), (1031156888,14), (1031013312,14), (1030869748,14), (1030726197,14), (1030582660,14), (1030439135,14),
    (1030295624,14), (1030152125,14), (1030008639,14), (1029865166,14), (1029721706,14), (1029578259,14), (1029434826,14), (1029291405,14), (1029147996,14), (1029004601,14), (1028861219,14), (1028717850,14), (1028574494,14), (1028431150,14), (1028287820,14), (1028144503,14),
    (1028001198,14), (1027857906,14), (1027714628,14), (1027571362,14), (1027428109,14), (1027284869,14), (1027141642,14), (1026998428,14), (1026855227,14), (1026712039,14), (1026568864,14), (1026425702,14), (1026282552,14), (1026139416,14), (1025996292,14), (1025853181,14),
    (1025710083,14), (1025566999,14), (1025423927,14), (1025280867,14), (1025137821,14), (1024994788,14), (1024851768,14), (1024708760,14), (1024565765,14), (1024422784,14), (1024279815,14), (1024136859,14), (1023993916,14), (1023850986,14), (1023708068,14), (1023565164,14),
    (1023422273,14), (1023279394,14), (1023136528,14), (1022993675,14), (1022850835,14), (1022708008,14), (1022565194,14), (1022422392,14), (1022279604,14), (1022136828,14), (1021994065,14), (1021851315,14), (1021708578,14), (1021565854,14), (1021423142,14), (1021280444,14),
    (1021137758,14), (1020995085,14), (1020852425,14), (1020709778,14), (1020567144,14), (1020424522,14), (1020281914,14), (1020139318,14), (1019996735,14), (1019854165,14), (1019711608,14), (1019569063,14), (1019426532,14), (1019284013,14), (1019141507,14), (1018999014,14),
    (1018856533,14), (1018714066,14), (1018571611,14), (1018429169,14), (1018286740,14), (1018144324,14), (1018001921,14), (1017859530,14), (1017717152,14), (1017574787,14), (1017432435,14), (1017290096,14), (1017147769,14), (1017005455,14), (1016863154,14), (1016720866,14),
    (1016578591,14), (1016436328,14), (1016294078,14), (1016151841,14), (1016009617,14), (1015867406,14), (1015725207,14), (1015583021,14), (1015440848,14), (1015298688,14), (1015156540,14), (1015014406,14), (1014872284,14), (1014730174,14), (1014588078,14), (1014445994,14),
    (1014303923,14), (1014161865,14), (1014019820,14), (1013877787,14), (1013735767,14), (1013593760,14), (1013451766,14), (1013309785,14), (1013167816,14), (1013025860,14), (1012883916,14), (1012741986,14), (1012600068,14), (1012458163,14), (1012316271,14), (1012174391,14),
    (1012032524,14), (1011890670,14), (1011748829,14), (1011607000,14), (1011465184,14), (1011323381,14), (1011181591,14), (1011039813,14), (1010898048,14), (1010756296,14), (1010614556,14), (1010472830,14), (1010331115,14), (1010189414,14), (1010047725,14), (1009906050,14),
    (1009764386,14), (1009622736,14), (1009481098,14), (1009339473,14), (1009197861,14), (1009056261,14), (1008914674,14), (1008773100,14), (1008631538,14), (1008489989,14), (1008348453,14), (1008206930,14), (1008065419,14), (1007923921,14), (1007782435,14), (1007640963,14),
    (1007499503,14), (1007358055,14), (1007216620,14), (1007075198,14), (1006933789,14), (1006792393,14), (1006651009,14), (1006509637,14), (1006368279,14), (1006226933,14), (1006085600,14), (1005944279,14), (1005802971,14), (1005661676,14), (1005520393,14), (1005379123,14),
    (1005237866,14), (1005096621,14), (1004955389,14), (1004814170,14), (1004672963,14), (1004531769,14), (1004390588,14), (1004249419,14), (1004108263,14), (1003967120,14), (1003825989,14), (1003684871,14), (1003543765,14), (1003402672,14), (1003261592,14), (1003120524,14),
    (1002979469,14), (1002838427,14), (1002697397,14), (1002556380,14), (1002415376,14), (1002274384,14), (1002133405,14), (1001992438,14), (1001851484,14), (1001710543,14), (1001569614,14), (1001428698,14), (1001287794,14), (1001146903,14), (1001006025,14), (1000865159,14),
    (1000724306,14), (1000583466,14), (1000442638,14), (1000301822,14), (1000161020,14), (1000020229,14), (999879452,14), (999738687,14), (999597935,14), (999457195,14), (999316468,14), (999175753,14), (999035051,14), (998894362,14), (998753685,14), (998613021,14),
    (998472369,14), (998331730,14), (998191103,14), (998050489,14), (997909888,14), (997769299,14), (997628723,14), (997488159,14), (997347608,14), (997207070,14), (997066544,14), (996926030,14), (996785529,14), (996645041,14), (996504565,14), (996364102,14),
    (996223651,14), (996083213,14), (995942788,14), (995802375,14), (995661974,14), (995521586,14), (995381211,14), (995240848,14), (995100498,14), (994960160,14), (994819835,14), (994679522,14), (994539222,14), (994398934,14), (994258659,14), (994118396,14),
    (993978146,14), (993837909,14), (993697684,14), (993557471,14), (993417271,14), (993277083,14), (993136908,14), (992996746,14), (992856596,14), (992716459,14), (992576334,14), (992436221,14), (992296121,14), (992156034,14), (992015959,14), (991875896,14),
    (991735847,14), (991595809,14), (991455784,14), (991315772,14), (991175772,14), (991035784,14), (990895809,14), (990755847,14), (990615897,14), (990475959,14), (990336034,14), (990196121,14), (990056221,14), (989916334,14), (989776459,14), (989636596,14),
    (989496746,14), (989356908,14), (989217083,14), (989077270,14), (988937469,14), (988797681,14), (988657906,14), (988518143,14), (988378393,14), (988238654,14), (988098929,14), (987959216,14), (987819515,14), (987679827,14), (987540151,14), (987400487,14),
    (987260837,14), (987121198,14), (986981572,14), (986841958,14), (986702357,14), (986562768,14), (986423192,14), (986283628,14), (986144077,14), (986004538,14), (985865011,14), (985725497,14), (985585995,14), (985446506,14), (985307029,14), (985167565,14),
    (985028113,14), (984888673,14), (984749246,14), (984609831,14), (984470428,14), (984331038,14), (984191661,14), (984052296,14), (983912943,14), (983773602,14), (983634274,14), (983494959,14), (983355656,14), (983216365,14), (983077086,14), (982937820,14),
    (982798567,14), (982659326,14), (982520097,14), (982380880,14), (982241676,14), (982102484,14), (981963305,14), (981824138,14), (981684984,14), (981545841,14), (981406712,14), (981267594,14), (981128489,14), (980989396,14), (980850316,14), (980711248,14),
    (980572193,14), (980433149,14), (980294118,14), (980155100,14), (980016094,14), (979877100,14), (979738118,14), (979599149,14), (979460193,14), (979321248,14), (979182316,14), (979043396,14), (978904489,14), (978765594,14), (978626711,14), (978487841,14),
    (978348983,14), (978210137,14), (978071304,14), (977932483,14), (977793674,14), (977654878,14), (977516094,14), (977377322,14), (977238563,14), (977099816,14), (976961081,14), (976822359,14), (976683649,14), (976544951,14), (976406265,14), (976267592,14),
    (976128931,14), (975990283,14), (975851647,14), (975713023,14), (975574411,14), (975435812,14), (975297225,14), (975158650,14), (975020088,14), (974881538,14), (974743000,14), (974604474,14), (974465961,14), (974327460,14), (974188972,14), (974050495,14),
    (973912031,14), (973773579,14), (973635140,14), (973496713,14), (973358298,14), (973219895,14), (973081505,14), (972943126,14), (972804761,14), (972666407,14), (972528066,14), (972389737,14), (972251420,14), (972113115,14), (971974823,14), (971836543,14),
    (971698275,14), (971560020,14), (971421777,14), (971283546,14), (971145327,14), (971007120,14), (970868926,14), (970730744,14), (970592574,14), (970454417,14), (970316272,14), (970178139,14), (970040018,14), (969901909,14), (969763813,14), (969625729,14),
    (969487657,14), (969349598,14), (969211550,14), (969073515,14), (968935492,14), (968797482,14), (968659483,14), (968521497,14), (968383523,14), (968245561,14), (968107612,14), (967969674,14), (967831749,14), (967693836,14), (967555935,14), (967418047,14),
    (967280171,14), (967142306,14), (967004455,14), (966866615,14), (966728787,14), (966590972,14), (966453169,14), (966315378,14), (966177599,14), (966039833,14), (965902078,14), (965764336,14), (965626606,14), (965488889,14), (965351183,14), (965213490,14),
    (965075808,14), (964938139,14), (964800482,14), (964662838,14), (964525205,14), (964387585,14), (964249977,14), (964112381,14), (963974797,14), (963837225,14), (963699666,14), (963562118,14), (963424583,14), (963287060,14), (963149549,14), (963012051,14),
    (962874564,14), (962737090,14), (962599627,14), (962462177,14), (962324739,14), (962187314,14), (962049900,14), (961912498,14), (961775109,14), (961637732,14), (961500367,14), (961363014,14), (961225673,14), (961088344,14), (960951028,14), (960813723,14),
    (960676431,14), (960539151,14), (960401883,14), (960264627,14), (960127383,14), (959990151,14), (959852932,14), (959715724,14), (959578529,14), (959441346,14), (959304175,14), (959167016,14), (959029869,14), (958892734,14), (958755612,14), (958618501,14),
    (958481403,14), (958344316,14), (958207242,14), (958070180,14), (957933130,14), (957796092,14), (957659066,14), (957522052,14), (957385051,14), (957248061,14), (957111084,14), (956974118,14), (956837165,14), (956700224,14), (956563295,14), (956426378,14),
    (956289473,14), (956152580,14), (956015699,14), (955878830,14), (955741973,14), (955605129,14), (955468296,14), (955331476,14), (955194667,14), (955057871,14), (954921087,14), (954784314,14), (954647554,14), (954510806,14), (954374070,14), (954237346,14),
    (954100634,14), (953963934,14), (953827246,14), (953690570,14), (953553907,14), (953417255,14), (953280615,14), (953143988,14), (953007372,14), (952870768,14), (952734177,14), (952597597,14), (952461030,14), (952324475,14), (952187931,14), (952051400,14),
    (951914880,14), (951778373,14), (951641878,14), (951505395,14), (951368923,14), (951232464,14), (951096017,14), (950959582,14), (950823158,14), (950686747,14), (950550348,14), (950413961,14), (950277586,14), (950141223,14), (950004872,14), (949868533,14),
    (949732205,14), (949595890,14), (949459587,14), (949323296,14), (949187017,14), (949050750,14), (948914495,14), (948778251,14), (948642020,14), (948505801,14), (948369594,14), (948233399,14), (948097215,14), (947961044,14), (947824885,14), (947688738,14),
    (947552602,14), (947416479,14), (947280368,14), (947144268,14), (947008181,14), (946872105,14), (946736042,14), (946599990,14), (946463951,14), (946327923,14), (946191908,14), (946055904,14), (945919912,14), (945783933,14), (945647965,14), (945512009,14),
    (945376065,14), (945240133,14), (945104213,14), (944968305,14), (944832409,14), (944696525,14), (944560652,14), (944424792,14), (944288944,14), (944153107,14), (944017283,14), (943881470,14), (943745670,14), (943609881,14), (943474104,14), (943338339,14),
    (943202587,14), (943066846,14), (942931117,14), (942795399,14), (942659694,14), (942524001,14), (942388320,14), (942252650,14), (942116993,14), (941981347,14), (941845713,14), (941710091,14), (941574481,14), (941438883,14), (941303297,14), (941167723,14),
    (941032161,14), (940896610,14), (940761072,14), (940625545,14), (940490031,14), (940354528,14), (940219037,14), (940083558,14), (939948091,14), (939812635,14), (939677192,14), (939541761,14), (939406341,14), (939270933,14), (939135537,14), (939000153,14),
    (938864781,14), (938729421,14), (938594073,14), (938458736,14), (938323412,14), (938188099,14), (938052798,14), (937917509,14), (937782232,14), (937646967,14), (937511713,14), (937376472,14), (937241242,14), (937106024,14), (936970818,14), (936835624,14),
    (936700442,14), (936565271,14), (936430113,14), (936294966,14), (936159831,14), (936024708,14), (935889597,14), (935754497,14), (935619410,14), (935484334,14), (935349270,14), (935214218,14), (935079178,14), (934944149,14), (934809133,14), (934674128,14),
    (934539135,14), (934404154,14), (934269185,14), (934134228,14), (933999282,14), (933864348,14), (933729426,14), (933594516,14), (933459618,14), (933324731,14), (933189856,14), (933054994,14), (932920142,14), (932785303,14), (932650476,14), (932515660,14),
    (932380856,14), (932246064,14), (932111284,14), (931976515,14), (931841758,14), (931707014,14), (931572280,14), (931437559,14), (931302850,14), (931168152,14), (931033466,14), (930898792,14), (930764129,14), (930629479,14), (930494840,14), (930360213,14),
    (930225597,14), (930090994,14), (929956402,14), (929821822,14), (929687254,14), (929552698,14), (929418153,14), (929283620,14), (929149099,14), (929014590,14), (928880092,14), (928745606,14), (928611132,14), (928476670,14), (928342219,14), (928207780,14),
    (928073353,14), (927938938,14), (927804534,14), (927670143,14), (927535762,14), (927401394,14), (927267038,14), (927132693,14), (926998360,14), (926864038,14), (926729729,14), (926595431,14), (926461144,14), (926326870,14), (926192607,14), (926058356,14),
    (925924117,14), (925789890,14), (925655674,14), (925521470,14), (925387277,14), (925253097,14), (925118928,14), (924984771,14), (924850625,14), (924716491,14), (924582369,14), (924448259,14), (924314160,14), (924180073,14), (924045998,14), (923911934,14),
    (923777883,14), (923643842,14), (923509814,14), (923375797,14), (923241792,14), (923107799,14), (922973817,14), (922839847,14), (922705889,14), (922571942,14), (922438008,14), (922304084,14), (922170173,14), (922036273,14), (921902385,14), (921768508,14),
    (921634644,14), (921500790,14), (921366949,14), (921233119,14), (921099301,14), (920965495,14), (920831700,14), (920697917,14), (920564145,14), (920430386,14), (920296638,14), (920162901,14), (920029176,14), (919895463,14), (919761762,14), (919628072,14),
    (919494394,14), (919360727,14), (919227072,14), (919093429,14), (918959798,14), (918826178,14), (918692569,14), (918558973,14), (918425388,14), (918291814,14), (918158253,14), (918024703,14), (917891164,14), (917757637,14), (917624122,14), (917490619,14),
    (917357127,14), (917223647,14), (917090178,14), (916956721,14), (916823275,14), (916689842,14), (916556419,14), (916423009,14), (916289610,14), (916156223,14), (916022847,14), (915889483,14), (915756130,14), (915622790,14), (915489460,14), (915356143,14),
    (915222837,14), (915089542,14), (914956259,14), (914822988,14), (914689728,14), (914556480,14), (914423244,14), (914290019,14), (914156806,14), (914023604,14), (913890414,14), (913757236,14), (913624069,14), (913490913,14), (913357770,14), (913224637,14),
    (913091517,14), (912958408,14), (912825310,14), (912692225,14), (912559150,14), (912426088,14), (912293036,14), (912159997,14), (912026969,14), (911893953,14), (911760948,14), (911627954,14), (911494973,14), (911362002,14), (911229044,14), (911096097,14),
    (910963161,14), (910830237,14), (910697325,14), (910564424,14), (910431535,14), (910298657,14), (910165791,14), (910032936,14), (909900093,14), (909767262,14), (909634442,14), (909501633,14), (909368836,14), (909236051,14), (909103277,14), (908970515,14),
    (908837764,14), (908705025,14), (908572297,14), (908439581,14), (908306876,14), (908174183,14), (908041501,14), (907908831,14), (907776173,14), (907643526,14), (907510890,14), (907378266,14), (907245653,14), (907113052,14), (906980463,14), (906847885,14),
    (906715319,14), (906582764,14), (906450220,14), (906317688,14), (906185168,14), (906052659,14), (905920161,14), (905787675,14), (905655201,14), (905522738,14), (905390286,14), (905257846,14), (905125418,14), (904993001,14), (904860595,14), (904728201,14),
    (904595819,14), (904463448,14), (904331088,14), (904198740,14), (904066404,14), (903934078,14), (903801765,14), (903669463,14), (903537172,14), (903404893,14), (903272625,14), (903140369,14), (903008124,14), (902875890,14), (902743668,14), (902611458,14),
    (902479259,14), (902347071,14), (902214895,14), (902082731,14), (901950578,14), (901818436,14), (901686306,14), (901554187,14), (901422079,14), (901289984,14), (901157899,14), (901025826,14), (900893764,14), (900761714,14), (900629676,14), (900497648,14),
    (900365633,14), (900233628,14), (900101635,14), (899969654,14), (899837684,14), (899705725,14), (899573778,14), (899441842,14), (899309918,14), (899178005,14), (899046103,14), (898914213,14), (898782334,14), (898650467,14), (898518611,14), (898386767,14),
    (898254934,14), (898123112,14), (897991302,14), (897859503,14), (897727716,14), (897595940,14), (897464175,14), (897332422,14), (897200680,14), (897068950,14), (896937231,14), (896805523,14), (896673827,14), (896542142,14), (896410469,14), (896278807,14),
    (896147156,14), (896015517,14), (895883889,14), (895752272,14), (895620667,14), (895489074,14), (895357491,14), (895225920,14), (895094361,14), (894962813,14), (894831276,14), (894699750,14), (894568236,14), (894436734,14), (894305242,14), (894173762,14),
    (894042294,14), (893910837,14), (893779391,14), (893647956,14), (893516533,14), (893385121,14), (893253721,14), (893122332,14), (892990954,14), (892859588,14), (892728233,14), (892596889,14), (892465557,14), (892334236,14), (892202926,14), (892071628,14),
    (891940341,14), (891809065,14), (891677801,14), (891546548,14), (891415306,14), (891284076,14), (891152857,14), (891021650,14), (890890453,14), (890759269,14), (890628095,14), (890496933,14), (890365782,14), (890234642,14), (890103514,14), (889972397,14),
    (889841291,14), (889710197,14), (889579114,14), (889448042,14), (889316982,14), (889185933,14), (889054895,14), (888923868,14), (888792853,14), (888661849,14), (888530857,14), (888399875,14), (888268905,14), (888137947,14), (888006999,14), (887876063,14),
    (887745139,14), (887614225,14), (887483323,14), (887352432,14), (887221553,14), (887090684,14), (886959827,14), (886828981,14), (886698147,14), (886567324,14), (886436512,14), (886305711,14), (886174922,14), (886044144,14), (885913377,14), (885782622,14),
    (885651877,14), (885521144,14), (885390423,14), (885259712,14), (885129013,14), (884998325,14), (884867649,14), (884736983,14), (884606329,14), (884475686,14), (884345055,14), (884214434,14), (884083825,14), (883953227,14), (883822641,14), (883692066,14),
    (883561501,14), (883430949,14), (883300407,14), (883169877,14), (883039358,14), (882908850,14), (882778353,14), (882647868,14), (882517394,14), (882386931,14), (882256479,14), (882126039,14), (881995609,14), (881865191,14), (881734785,14), (881604389,14),
    (881474005,14), (881343632,14), (881213270,14), (881082919,14), (880952580,14), (880822252,14), (880691935,14), (880561629,14), (880431334,14), (880301051,14), (880170779,14), (880040518,14), (879910268,14), (879780030,14), (879649802,14), (879519586,14),
    (879389381,14), (879259188,14), (879129005,14), (878998834,14), (878868674,14), (878738525,14), (878608387,14), (878478261,14), (878348145,14), (878218041,14), (878087948,14), (877957867,14), (877827796,14), (877697737,14), (877567688,14), (877437651,14),
    (877307626,14), (877177611,14), (877047607,14), (876917615,14), (876787634,14), (876657664,14), (876527705,14), (876397758,14), (876267821,14), (876137896,14), (876007982,14), (875878079,14), (875748187,14), (875618306,14), (875488437,14), (875358578,14),
    (875228731,14), (875098895,14), (874969070,14), (874839257,14), (874709454,14), (874579663,14), (874449882,14), (874320113,14), (874190355,14), (874060608,14), (873930873,14), (873801148,14), (873671435,14), (873541733,14), (873412041,14), (873282361,14),
    (873152693,14), (873023035,14), (872893388,14), (872763753,14), (872634128,14), (872504515,14), (872374913,14), (872245322,14), (872115742,14), (871986173,14), (871856616,14), (871727069,14), (871597534,14), (871468010,14), (871338497,14), (871208995,14),
    (871079504,14), (870950024,14), (870820555,14), (870691097,14), (870561651,14), (870432216,14), (870302791,14), (870173378,14), (870043976,14), (869914585,14), (869785205,14), (869655836,14), (869526478,14), (869397132,14), (869267796,14), (869138472,14),
    (869009158,14), (868879856,14), (868750565,14), (868621285,14), (868492016,14), (868362758,14), (868233511,14), (868104275,14), (867975051,14), (867845837,14), (867716634,14), (867587443,14), (867458262,14), (867329093,14), (867199935,14), (867070788,14),
    (866941651,14), (866812526,14), (866683412,14), (866554309,14), (866425217,14), (866296137,14), (866167067,14), (866038008,14), (865908960,14), (865779924,14), (865650898,14), (865521884,14), (865392880,14), (865263888,14), (865134906,14), (865005936,14),
    (864876977,14), (864748028,14), (864619091,14), (864490165,14), (864361250,14), (864232346,14), (864103452,14), (863974570,14), (863845699,14), (863716839,14), (863587990,14), (863459152,14), (863330326,14), (863201510,14), (863072705,14), (862943911,14),
    (862815128,14), (862686356,14), (862557595,14), (862428846,14), (862300107,14), (862171379,14), (862042662,14), (861913957,14), (861785262,14), (861656578,14), (861527905,14), (861399244,14), (861270593,14), (861141953,14), (861013325,14), (860884707,14),
    (860756100,14), (860627504,14), (860498920,14), (860370346,14), (860241783,14), (860113231,14), (859984691,14), (859856161,14), (859727642,14), (859599134,14), (859470638,14), (859342152,14), (859213677,14), (859085213,14), (858956760,14), (858828318,14),
    (858699887,14), (858571467,14), (858443058,14), (858314660,14), (858186273,14), (858057897,14), (857929532,14), (857801178,14), (857672834,14), (857544502,14), (857416181,14), (857287870,14), (857159571,14), (857031283,14), (856903005,14), (856774739,14),
    (856646483,14), (856518238,14), (856390005,14), (856261782,14), (856133570,14), (856005369,14), (855877180,14), (855749001,14), (855620833,14), (855492676,14), (855364529,14), (855236394,14), (855108270,14), (854980157,14), (854852054,14), (854723963,14),
    (854595882,14), (854467813,14), (854339754,14), (854211706,14), (854083669,14), (853955644,14), (853827629,14), (853699624,14), (853571631,14), (853443649,14), (853315678,14), (853187717,14), (853059768,14), (852931829,14), (852803902,14), (852675985,14),
    (852548079,14), (852420184,14), (852292300,14), (852164427,14), (852036565,14), (851908713,14), (851780873,14), (851653043,14), (851525225,14), (851397417,14), (851269620,14), (851141834,14), (851014059,14), (850886295,14), (850758542,14), (850630799,14),
    (850503068,14), (850375347,14), (850247637,14), (850119938,14), (849992250,14), (849864573,14), (849736907,14), (849609252,14), (849481607,14), (849353973,14), (849226351,14), (849098739,14), (848971138,14), (848843548,14), (848715968,14), (848588400,14),
    (848460842,14), (848333296,14), (848205760,14), (848078235,14), (847950721,14), (847823217,14), (847695725,14), (847568243,14), (847440773,14), (847313313,14), (847185864,14), (847058426,14), (846930998,14), (846803582,14), (846676176,14), (846548781,14),
    (846421397,14), (846294024,14), (846166662,14), (846039311,14), (845911970,14), (845784640,14), (845657321,14), (845530013,14), (845402716,14), (845275430,14), (845148154,14), (845020889,14), (844893635,14), (844766392,14), (844639160,14), (844511938,14),
    (844384727,14), (844257528,14), (844130338,14), (844003160,14), (843875993,14), (843748836,14), (843621690,14), (843494555,14), (843367431,14), (843240318,14), (843113215,14), (842986123,14), (842859042,14), (842731972,14), (842604913,14), (842477864,14),
    (842350826,14), (842223799,14), (842096783,14), (841969778,14), (841842783,14), (841715799,14), (841588826,14), (841461864,14), (841334913,14), (841207972,14), (841081042,14), (840954123,14), (840827214,14), (840700317,14), (840573430,14), (840446554,14),
    (840319689,14), (840192834,14), (840065991,14), (839939158,14), (839812336,14), (839685524,14), (839558724,14), (839431934,14), (839305155,14), (839178386,14), (839051629,14), (838924882,14), (838798146,14), (838671421,14), (838544706,14), (838418002,14),
    (838291309,14), (838164627,14), (838037955,14), (837911294,14), (837784644,14), (837658005,14), (837531377,14), (837404759,14), (837278152,14), (837151555,14), (837024970,14), (836898395,14), (836771831,14), (836645277,14), (836518735,14), (836392203,14),
    (836265682,14), (836139171,14), (836012671,14), (835886182,14), (835759704,14), (835633237,14), (835506780,14), (835380334,14), (835253898,14), (835127473,14), (835001060,14), (834874656,14), (834748264,14), (834621882,14), (834495511,14), (834369150,14),
    (834242801,14), (834116462,14), (833990133,14), (833863816,14), (833737509,14), (833611213,14), (833484927,14), (833358653,14), (833232388,14), (833106135,14), (832979892,14), (832853660,14), (832727439,14), (832601229,14), (832475029,14), (832348839,14),
    (832222661,14), (832096493,14), (831970336,14), (831844189,14), (831718054,14), (831591928,14), (831465814,14), (831339710,14), (831213617,14), (831087535,14), (830961463,14), (830835402,14), (830709351,14), (830583312,14), (830457283,14), (830331264,14),
    (830205256,14), (830079259,14), (829953273,14), (829827297,14), (829701332,14), (829575378,14), (829449434,14), (829323501,14), (829197578,14), (829071666,14), (828945765,14), (828819875,14), (828693995,14), (828568126,14), (828442267,14), (828316419,14),
    (828190582,14), (828064755,14), (827938939,14), (827813134,14), (827687339,14), (827561555,14), (827435782,14), (827310019,14), (827184267,14), (827058525,14), (826932794,14), (826807074,14), (826681364,14), (826555665,14), (826429977,14), (826304299,14),
    (826178632,14), (826052975,14), (825927329,14), (825801694,14), (825676069,14), (825550455,14), (825424852,14), (825299259,14), (825173677,14), (825048105,14), (824922544,14), (824796994,14), (824671454,14), (824545925,14), (824420406,14), (824294898,14),
    (824169401,14), (824043914,14), (823918438,14), (823792972,14), (823667517,14), (823542072,14), (823416639,14), (823291215,14), (823165803,14), (823040401,14), (822915009,14), (822789628,14), (822664258,14), (822538898,14), (822413549,14), (822288211,14),
    (822162883,14), (822037565,14), (821912258,14), (821786962,14), (821661676,14), (821536401,14), (821411137,14), (821285883,14), (821160639,14), (821035407,14), (820910184,14), (820784973,14), (820659772,14), (820534581,14), (820409401,14), (820284231,14),
    (820159073,14), (820033924,14), (819908786,14), (819783659,14), (819658542,14), (819533436,14), (819408341,14), (819283256,14), (819158181,14), (819033117,14), (818908064,14), (818783021,14), (818657989,14), (818532967,14), (818407956,14), (818282955,14),
    (818157965,14), (818032985,14), (817908016,14), (817783058,14), (817658110,14), (817533172,14), (817408245,14), (817283329,14), (817158423,14), (817033527,14), (816908642,14), (816783768,14), (816658904,14), (816534051,14), (816409208,14), (816284376,14),
    (816159554,14), (816034743,14), (815909942,14), (815785152,14), (815660372,14), (815535603,14), (815410844,14), (815286096,14), (815161358,14), (815036631,14), (814911914,14), (814787208,14), (814662513,14), (814537827,14), (814413153,14), (814288488,14),
    (814163835,14), (814039192,14), (813914559,14), (813789937,14), (813665325,14), (813540724,14), (813416133,14), (813291552,14), (813166983,14), (813042423,14), (812917874,14), (812793336,14), (812668808,14), (812544291,14), (812419784,14), (812295287,14),
    (812170801,14), (812046326,14), (811921861,14), (811797406,14), (811672962,14), (811548529,14), (811424105,14), (811299693,14), (811175290,14), (811050899,14), (810926517,14), (810802146,14), (810677786,14), (810553436,14), (810429096,14), (810304767,14),
    (810180449,14), (810056141,14), (809931843,14), (809807556,14), (809683279,14), (809559012,14), (809434756,14), (809310511,14), (809186276,14), (809062051,14), (808937837,14), (808813633,14), (808689440,14), (808565257,14), (808441085,14), (808316923,14),
    (808192771,14), (808068630,14), (807944499,14), (807820379,14), (807696269,14), (807572170,14), (807448081,14), (807324002,14), (807199934,14), (807075876,14), (806951829,14), (806827792,14), (806703766,14), (806579749,14), (806455744,14), (806331748,14),
    (806207764,14), (806083789,14), (805959825,14), (805835871,14), (805711928,14), (805587995,14), (805464073,14), (805340161,14), (805216259,14), (805092368,14), (804968487,14), (804844617,14), (804720757,14), (804596907,14), (804473068,14), (804349239,14),
    (804225420,14), (804101612,14), (803977815,14), (803854027,14), (803730250,14), (803606484,14), (803482727,14), (803358982,14), (803235246,14), (803111521,14), (802987806,14), (802864102,14), (802740408,14), (802616725,14), (802493051,14), (802369389,14),
    (802245736,14), (802122094,14), (801998462,14), (801874841,14), (801751230,14), (801627629,14), (801504039,14), (801380459,14), (801256890,14), (801133330,14), (801009782,14), (800886243,14), (800762715,14), (800639197,14), (800515690,14), (800392193,14),
    (800268706,14), (800145229,14), (800021763,14), (799898308,14), (799774862,14), (799651427,14), (799528002,14), (799404588,14), (799281184,14), (799157790,14), (799034407,14), (798911034,14), (798787671,14), (798664319,14), (798540977,14), (798417645,14),
    (798294324,14), (798171013,14), (798047712,14), (797924422,14), (797801141,14), (797677872,14), (797554612,14), (797431363,14), (797308124,14), (797184896,14), (797061678,14), (796938470,14), (796815272,14), (796692085,14), (796568908,14), (796445741,14),
    (796322585,14), (796199439,14), (796076303,14), (795953178,14), (795830062,14), (795706958,14), (795583863,14), (795460779,14), (795337705,14), (795214641,14), (795091588,14), (794968545,14), (794845512,14), (794722489,14), (794599477,14), (794476475,14),
    (794353484,14), (794230502,14), (794107531,14), (793984570,14), (793861620,14), (793738680,14), (793615750,14), (793492830,14), (793369921,14), (793247021,14), (793124133,14), (793001254,14), (792878386,14), (792755528,14), (792632680,14), (792509842,14),
    (792387015,14), (792264198,14), (792141391,14), (792018595,14), (791895809,14), (791773033,14), (791650267,14), (791527511,14), (791404766,14), (791282031,14), (791159307,14), (791036592,14), (790913888,14), (790791194,14), (790668510,14), (790545837,14),
    (790423174,14), (790300521,14), (790177878,14), (790055245,14), (789932623,14), (789810011,14), (789687409,14), (789564818,14), (789442236,14), (789319665,14), (789197104,14), (789074554,14), (788952013,14), (788829483,14), (788706963,14), (788584454,14),
    (788461954,14), (788339465,14), (788216986,14), (788094517,14), (787972058,14), (787849610,14), (787727172,14), (787604744,14), (787482326,14), (787359918,14), (787237521,14), (787115134,14), (786992757,14), (786870390,14), (786748034,14), (786625687,14),
    (786503351,14), (786381025,14), (786258710,14), (786136404,14), (786014109,14), (785891824,14), (785769549,14), (785647284,14), (785525029,14), (785402785,14), (785280551,14), (785158327,14), (785036113,14), (784913910,14), (784791716,14), (784669533,14),
    (784547360,14), (784425197,14), (784303044,14), (784180902,14), (784058769,14), (783936647,14), (783814535,14), (783692434,14), (783570342,14), (783448260,14), (783326189,14), (783204128,14), (783082077,14), (782960036,14), (782838006,14), (782715985,14),
    (782593975,14), (782471975,14), (782349985,14), (782228005,14), (782106035,14), (781984076,14), (781862126,14), (781740187,14), (781618258,14), (781496339,14), (781374430,14), (781252532,14), (781130643,14), (781008765,14), (780886897,14), (780765039,14),
    (780643191,14), (780521353,14), (780399525,14), (780277708,14), (780155901,14), (780034103,14), (779912316,14), (779790539,14), (779668773,14), (779547016,14), (779425269,14), (779303533,14), (779181807,14), (779060090,14), (778938384,14), (778816688,14),
    (778695003,14), (778573327,14), (778451661,14), (778330006,14), (778208361,14), (778086725,14), (777965100,14), (777843485,14), (777721880,14), (777600286,14), (777478701,14), (777357126,14), (777235562,14), (777114008,14), (776992463,14), (776870929,14),
    (776749405,14), (776627891,14), (776506387,14), (776384894,14), (776263410,14), (776141936,14), (776020473,14), (775899020,14), (775777576,14), (775656143,14), (775534720,14), (775413307,14), (775291904,14), (775170511,14), (775049128,14), (774927756,14),
    (774806393,14), (774685041,14), (774563698,14), (774442366,14), (774321043,14), (774199731,14), (774078429,14), (773957137,14), (773835855,14), (773714583,14), (773593321,14), (773472069,14), (773350828,14), (773229596,14), (773108374,14), (772987163,14),
    (772865961,14), (772744770,14), (772623589,14), (772502417,14), (772381256,14), (772260105,14), (772138964,14), (772017833,14), (771896712,14), (771775601,14), (771654500,14), (771533409,14), (771412328,14), (771291257,14), (771170196,14), (771049146,14),
    (770928105,14), (770807074,14), (770686054,14), (770565043,14), (770444043,14), (770323052,14), (770202072,14), (770081101,14), (769960141,14), (769839191,14), (769718250,14), (769597320,14), (769476400,14), (769355489,14), (769234589,14), (769113699,14),
    (768992819,14), (768871949,14), (768751088,14), (768630238,14), (768509398,14), (768388568,14), (768267748,14), (768146938,14), (768026138,14), (767905348,14), (767784568,14), (767663798,14), (767543038,14), (767422288,14), (767301547,14), (767180817,14),
    (767060097,14), (766939387,14), (766818687,14), (766697997,14), (766577317,14), (766456647,14), (766335987,14), (766215337,14), (766094697,14), (765974067,14), (765853447,14), (765732837,14), (765612237,14), (765491647,14), (765371066,14), (765250496,14),
    (765129936,14), (765009386,14), (764888846,14), (764768315,14), (764647795,14), (764527285,14), (764406784,14), (764286294,14), (764165814,14), (764045343,14), (763924883,14), (763804432,14), (763683992,14), (763563561,14), (763443141,14), (763322730,14),
    (763202329,14), (763081939,14), (762961558,14), (762841187,14), (762720826,14), (762600475,14), (762480135,14), (762359804,14), (762239483,14), (762119172,14), (761998870,14), (761878579,14), (761758298,14), (761638027,14), (761517765,14), (761397514,14),
    (761277273,14), (761157041,14), (761036819,14), (760916608,14), (760796406,14), (760676214,14), (760556033,14), (760435861,14), (760315699,14), (760195547,14), (760075405,14), (759955272,14), (759835150,14), (759715038,14), (759594935,14), (759474843,14),
    (759354760,14), (759234688,14), (759114625,14), (758994572,14), (758874529,14), (758754496,14), (758634473,14), (758514460,14), (758394457,14), (758274464,14), (758154480,14), (758034507,14), (757914543,14), (757794589,14), (757674646,14), (757554712,14),
    (757434788,14), (757314874,14), (757194970,14), (757075075,14), (756955191,14), (756835316,14), (756715452,14), (756595597,14), (756475752,14), (756355917,14), (756236092,14), (756116277,14), (755996472,14), (755876677,14), (755756891,14), (755637116,14),
    (755517350,14), (755397594,14), (755277848,14), (755158112,14), (755038386,14), (754918670,14), (754798963,14), (754679267,14), (754559580,14), (754439903,14), (754320236,14), (754200579,14), (754080932,14), (753961294,14), (753841667,14), (753722049,14),
    (753602442,14), (753482844,14), (753363256,14), (753243678,14), (753124109,14), (753004551,14), (752885002,14), (752765463,14), (752645935,14), (752526415,14), (752406906,14), (752287407,14), (752167917,14), (752048438,14), (751928968,14), (751809508,14),
    (751690058,14), (751570618,14), (751451187,14), (751331767,14), (751212356,14), (751092955,14), (750973564,14), (750854183,14), (750734811,14), (750615450,14), (750496098,14), (750376756,14), (750257424,14), (750138102,14), (750018789,14), (749899487,14),
    (749780194,14), (749660911,14), (749541638,14), (749422374,14), (749303121,14), (749183877,14), (749064643,14), (748945419,14), (748826205,14), (748707001,14), (748587806,14), (748468621,14), (748349446,14), (748230281,14), (748111126,14), (747991980,14),
    (747872844,14), (747753718,14), (747634602,14), (747515496,14), (747396399,14), (747277313,14), (747158236,14), (747039168,14), (746920111,14), (746801063,14), (746682026,14), (746562998,14), (746443979,14), (746324971,14), (746205972,14), (746086984,14),
    (745968005,14), (745849035,14), (745730076,14), (745611126,14), (745492186,14), (745373256,14), (745254336,14), (745135425,14), (745016524,14), (744897633,14), (744778752,14), (744659880,14), (744541019,14), (744422167,14), (744303325,14), (744184492,14),
    (744065669,14), (743946857,14), (743828053,14), (743709260,14), (743590476,14), (743471703,14), (743352939,14), (743234184,14), (743115440,14), (742996705,14), (742877980,14), (742759264,14), (742640559,14), (742521863,14), (742403177,14), (742284501,14),
    (742165834,14), (742047177,14), (741928530,14), (741809893,14), (741691265,14), (741572648,14), (741454039,14), (741335441,14), (741216852,14), (741098274,14), (740979704,14), (740861145,14), (740742595,14), (740624055,14), (740505525,14), (740387005,14),
    (740268494,14), (740149993,14), (740031501,14), (739913020,14), (739794548,14), (739676086,14), (739557633,14), (739439191,14), (739320758,14), (739202334,14), (739083921,14), (738965517,14), (738847123,14), (738728738,14), (738610364,14), (738491999,14),
    (738373643,14), (738255298,14), (738136962,14), (738018636,14), (737900319,14), (737782012,14), (737663715,14), (737545428,14), (737427150,14), (737308882,14), (737190624,14), (737072375,14), (736954136,14), (736835907,14), (736717688,14), (736599478,14),
    (736481278,14), (736363087,14), (736244907,14), (736126736,14), (736008574,14), (735890422,14), (735772280,14), (735654148,14), (735536025,14), (735417912,14), (735299809,14), (735181716,14), (735063632,14), (734945557,14), (734827493,14), (734709438,14),
    (734591393,14), (734473357,14), (734355331,14), (734237315,14), (734119308,14), (734001311,14), (733883324,14), (733765346,14), (733647378,14), (733529420,14), (733411472,14), (733293533,14), (733175603,14), (733057684,14), (732939774,14), (732821873,14),
    (732703983,14), (732586102,14), (732468230,14), (732350368,14), (732232516,14), (732114674,14), (731996841,14), (731879018,14), (731761204,14), (731643400,14), (731525606,14), (731407822,14), (731290047,14), (731172281,14), (731054526,14), (730936779,14),
    (730819043,14), (730701316,14), (730583599,14), (730465891,14), (730348194,14), (730230505,14), (730112827,14), (729995158,14), (729877498,14), (729759848,14), (729642208,14), (729524578,14), (729406957,14), (729289345,14), (729171744,14), (729054152,14),
    (728936569,14), (728818996,14), (728701433,14), (728583879,14), (728466335,14), (728348801,14), (728231276,14), (728113761,14), (727996255,14), (727878759,14), (727761273,14), (727643796,14), (727526329,14), (727408871,14), (727291423,14), (727173985,14),
    (727056556,14), (726939137,14), (726821727,14), (726704327,14), (726586936,14), (726469556,14), (726352184,14), (726234823,14), (726117471,14), (726000128,14), (725882795,14), (725765472,14), (725648158,14), (725530854,14), (725413559,14), (725296274,14),
    (725178999,14), (725061733,14), (724944476,14), (724827230,14), (724709992,14), (724592765,14), (724475547,14), (724358338,14), (724241139,14), (724123950,14), (724006770,14), (723889600,14), (723772439,14), (723655288,14), (723538147,14), (723421015,14),
    (723303892,14), (723186780,14), (723069676,14), (722952582,14), (722835498,14), (722718424,14), (722601359,14), (722484303,14), (722367257,14), (722250221,14), (722133194,14), (722016176,14), (721899168,14), (721782170,14), (721665181,14), (721548202,14),
    (721431233,14), (721314272,14), (721197322,14), (721080381,14), (720963449,14), (720846527,14), (720729615,14), (720612712,14), (720495818,14), (720378935,14), (720262060,14), (720145195,14), (720028340,14), (719911494,14), (719794658,14), (719677831,14),
    (719561014,14), (719444207,14), (719327408,14), (719210620,14), (719093841,14), (718977071,14), (718860311,14), (718743560,14), (718626819,14), (718510088,14), (718393366,14), (718276653,14), (718159950,14), (718043256,14), (717926572,14), (717809898,14),
    (717693233,14), (717576577,14), (717459931,14), (717343295,14), (717226668,14), (717110050,14), (716993442,14), (716876843,14), (716760254,14), (716643675,14), (716527105,14), (716410544,14), (716293993,14), (716177451,14), (716060919,14), (715944396,14),
    (715827883,14), (715711379,14), (715594885,14), (715478400,14), (715361925,14), (715245459,14), (715129003,14), (715012556,14), (714896119,14), (714779691,14), (714663273,14), (714546864,14), (714430464,14), (714314074,14), (714197694,14), (714081323,14),
    (713964961,14), (713848609,14), (713732266,14), (713615933,14), (713499609,14), (713383295,14), (713266990,14), (713150694,14), (713034409,14), (712918132,14), (712801865,14), (712685607,14), (712569359,14), (712453121,14), (712336891,14), (712220672,14),
    (712104461,14), (711988260,14), (711872069,14), (711755887,14), (711639714,14), (711523551,14), (711407397,14), (711291253,14), (711175118,14), (711058993,14), (710942877,14), (710826770,14), (710710673,14), (710594586,14), (710478507,14), (710362439,14),
    (710246379,14), (710130329,14), (710014289,14), (709898258,14), (709782236,14), (709666224,14), (709550221,14), (709434227,14), (709318243,14), (709202269,14), (709086304,14), (708970348,14), (708854402,14), (708738465,14), (708622537,14), (708506619,14),
    (708390710,14), (708274811,14), (708158921,14), (708043041,14), (707927170,14), (707811308,14), (707695456,14), (707579613,14), (707463779,14), (707347955,14), (707232141,14), (707116335,14), (707000539,14), (706884753,14), (706768976,14), (706653208,14),
    (706537450,14), (706421701,14), (706305961,14), (706190231,14), (706074511,14), (705958799,14), (705843097,14), (705727405,14), (705611721,14), (705496048,14), (705380383,14), (705264728,14), (705149082,14), (705033446,14), (704917819,14), (704802201,14),
    (704686593,14), (704570994,14), (704455405,14), (704339825,14), (704224254,14), (704108693,14), (703993141,14), (703877598,14), (703762065,14), (703646541,14), (703531026,14), (703415521,14), (703300025,14), (703184539,14), (703069062,14), (702953594,14),
    (702838135,14), (702722686,14), (702607247,14), (702491816,14), (702376395,14), (702260984,14), (702145581,14), (702030188,14), (701914805,14), (701799431,14), (701684066,14), (701568710,14), (701453364,14), (701338027,14), (701222699,14), (701107381,14),
    (700992072,14), (700876773,14), (700761482,14), (700646201,14), (700530930,14), (700415668,14), (700300415,14), (700185171,14), (700069937,14), (699954712,14), (699839496,14), (699724290,14), (699609093,14), (699493906,14), (699378727,14), (699263558,14),
    (699148399,14), (699033248,14), (698918107,14), (698802975,14), (698687853,14), (698572740,14), (698457636,14), (698342542,14), (698227456,14), (698112381,14), (697997314,14), (697882257,14), (697767209,14), (697652170,14), (697537141,14), (697422121,14),
    (697307110,14), (697192109,14), (697077116,14), (696962134,14), (696847160,14), (696732196,14), (696617241,14), (696502295,14), (696387359,14), (696272432,14), (696157514,14), (696042605,14), (695927706,14), (695812816,14), (695697935,14), (695583064,14),
    (695468202,14), (695353349,14), (695238506,14), (695123671,14), (695008846,14), (694894031,14), (694779224,14), (694664427,14), (694549639,14), (694434861,14), (694320091,14), (694205331,14), (694090580,14), (693975839,14), (693861107,14), (693746383,14),
    (693631670,14), (693516965,14), (693402270,14), (693287584,14), (693172907,14), (693058240,14), (692943582,14), (692828933,14), (692714293,14), (692599663,14), (692485042,14), (692370430,14), (692255827,14), (692141234,14), (692026649,14), (691912074,14),
    (691797509,14), (691682952,14), (691568405,14), (691453867,14), (691339339,14), (691224819,14), (691110309,14), (690995808,14), (690881316,14), (690766834,14), (690652360,14), (690537896,14), (690423441,14), (690308996,14), (690194560,14), (690080132,14),
    (689965715,14), (689851306,14), (689736906,14), (689622516,14), (689508135,14), (689393763,14), (689279401,14), (689165048,14), (689050703,14), (688936369,14), (688822043,14), (688707726,14), (688593419,14), (688479121,14), (688364832,14), (688250553,14),
    (688136282,14), (688022021,14), (687907769,14), (687793526,14), (687679293,14), (687565068,14), (687450853,14), (687336647,14), (687222451,14), (687108263,14), (686994085,14), (686879915,14), (686765755,14), (686651605,14), (686537463,14), (686423331,14),
    (686309208,14), (686195094,14), (686080989,14), (685966893,14), (685852807,14), (685738730,14), (685624661,14), (685510603,14), (685396553,14), (685282512,14), (685168481,14), (685054459,14), (684940446,14), (684826442,14), (684712448,14), (684598462,14),
    (684484486,14), (684370519,14), (684256561,14), (684142612,14), (684028673,14), (683914742,14), (683800821,14), (683686909,14), (683573006,14), (683459112,14), (683345228,14), (683231352,14), (683117486,14), (683003629,14), (682889781,14), (682775942,14),
    (682662113,14), (682548292,14), (682434481,14), (682320679,14), (682206886,14), (682093102,14), (681979327,14), (681865562,14), (681751805,14), (681638058,14), (681524320,14), (681410591,14), (681296871,14), (681183160,14), (681069459,14), (680955766,14),
    (680842083,14), (680728409,14), (680614744,14), (680501088,14), (680387441,14), (680273804,14), (680160175,14), (680046556,14), (679932946,14), (679819345,14), (679705753,14), (679592170,14), (679478597,14), (679365032,14), (679251477,14), (679137930,14),
    (679024393,14), (678910865,14), (678797346,14), (678683836,14), (678570336,14), (678456844,14), (678343361,14), (678229888,14), (678116424,14), (678002969,14), (677889523,14), (677776086,14), (677662658,14), (677549239,14), (677435830,14), (677322429,14),
    (677209038,14), (677095656,14), (676982282,14), (676868918,14), (676755563,14), (676642217,14), (676528881,14), (676415553,14), (676302234,14), (676188925,14), (676075625,14), (675962333,14), (675849051,14), (675735778,14), (675622514,14), (675509259,14),
    (675396013,14), (675282776,14), (675169549,14), (675056330,14), (674943120,14), (674829920,14), (674716729,14), (674603546,14), (674490373,14), (674377209,14), (674264054,14), (674150908,14), (674037771,14), (673924643,14), (673811524,14), (673698415,14),
    (673585314,14), (673472223,14), (673359140,14), (673246067,14), (673133002,14), (673019947,14), (672906901,14), (672793864,14), (672680835,14), (672567816,14), (672454806,14), (672341805,14), (672228814,14), (672115831,14), (672002857,14), (671889892,14),
    (671776937,14), (671663990,14), (671551052,14), (671438124,14), (671325204,14), (671212294,14), (671099393,14), (670986500,14), (670873617,14), (670760743,14), (670647877,14), (670535021,14), (670422174,14), (670309336,14), (670196507,14), (670083687,14),
    (669970876,14), (669858074,14), (669745281,14), (669632497,14), (669519722,14), (669406956,14), (669294200,14), (669181452,14), (669068713,14), (668955983,14), (668843263,14), (668730551,14), (668617848,14), (668505155,14), (668392470,14), (668279794,14),
    (668167128,14), (668054470,14), (667941822,14), (667829182,14), (667716552,14), (667603930,14), (667491318,14), (667378714,14), (667266120,14), (667153534,14), (667040958,14), (666928390,14), (666815832,14), (666703282,14), (666590742,14), (666478210,14),
    (666365688,14), (666253174,14), (666140670,14), (666028174,14), (665915688,14), (665803210,14), (665690742,14), (665578282,14), (665465832,14), (665353390,14), (665240958,14), (665128534,14), (665016120,14), (664903714,14), (664791318,14), (664678930,14),
    (664566551,14), (664454182,14), (664341821,14), (664229469,14), (664117127,14), (664004793,14), (663892468,14), (663780152,14), (663667846,14), (663555548,14), (663443259,14), (663330979,14), (663218708,14), (663106446,14), (662994193,14), (662881949,14),
    (662769714,14), (662657488,14), (662545271,14), (662433063,14), (662320864,14), (662208673,14), (662096492,14), (661984320,14), (661872156,14), (661760002,14), (661647857,14), (661535720,14), (661423593,14), (661311474,14), (661199364,14), (661087264,14),
    (660975172,14), (660863089,14), (660751015,14), (660638950,14), (660526894,14), (660414847,14), (660302809,14), (660190780,14), (660078760,14), (659966749,14), (659854746,14), (659742753,14), (659630768,14), (659518793,14), (659406826,14), (659294869,14),
    (659182920,14), (659070980,14), (658959049,14), (658847127,14), (658735214,14), (658623310,14), (658511415,14), (658399529,14), (658287651,14), (658175783,14), (658063924,14), (657952073,14), (657840231,14), (657728399,14), (657616575,14), (657504760,14),
    (657392954,14), (657281157,14), (657169369,14), (657057590,14), (656945819,14), (656834058,14), (656722305,14), (656610562,14), (656498827,14), (656387101,14), (656275384,14), (656163676,14), (656051977,14), (655940287,14), (655828606,14), (655716933,14),
    (655605270,14), (655493615,14), (655381969,14), (655270333,14), (655158705,14), (655047086,14), (654935475,14), (654823874,14), (654712282,14), (654600698,14), (654489124,14), (654377558,14), (654266001,14), (654154453,14), (654042914,14), (653931384,14),
    (653819863,14), (653708350,14), (653596847,14), (653485352,14), (653373866,14), (653262389,14), (653150921,14), (653039462,14), (652928012,14), (652816570,14), (652705138,14), (652593714,14), (652482299,14), (652370893,14), (652259496,14), (652148108,14),
    (652036729,14), (651925358,14), (651813997,14), (651702644,14), (651591300,14), (651479965,14), (651368639,14), (651257321,14), (651146013,14), (651034713,14), (650923422,14), (650812140,14), (650700867,14), (650589603,14), (650478348,14), (650367101,14),
    (650255863,14), (650144635,14), (650033415,14), (649922203,14), (649811001,14), (649699808,14), (649588623,14), (649477447,14), (649366280,14), (649255122,14), (649143973,14), (649032832,14), (648921701,14), (648810578,14), (648699464,14), (648588359,14),
    (648477262,14), (648366175,14), (648255096,14), (648144026,14), (648032965,14), (647921913,14), (647810870,14), (647699835,14), (647588810,14), (647477793,14), (647366785,14), (647255785,14), (647144795,14), (647033813,14), (646922840,14), (646811876,14),
    (646700921,14), (646589975,14), (646479037,14), (646368108,14), (646257189,14), (646146277,14), (646035375,14), (645924482,14), (645813597,14), (645702721,14), (645591854,14), (645480995,14), (645370146,14), (645259305,14), (645148473,14), (645037650,14),
    (644926836,14), (644816030,14), (644705233,14), (644594445,14), (644483666,14), (644372896,14), (644262134,14), (644151382,14), (644040638,14), (643929902,14), (643819176,14), (643708458,14), (643597749,14), (643487049,14), (643376358,14), (643265675,14),
    (643155002,14), (643044337,14), (642933681,14), (642823033,14), (642712394,14), (642601765,14), (642491143,14), (642380531,14), (642269928,14), (642159333,14), (642048747,14), (641938170,14), (641827601,14), (641717041,14), (641606490,14), (641495948,14),
    (641385415,14), (641274890,14), (641164374,14), (641053867,14), (640943369,14), (640832879,14), (640722398,14), (640611926,14), (640501463,14), (640391008,14), (640280562,14), (640170125,14), (640059697,14), (639949277,14), (639838866,14), (639728464,14),
    (639618071,14), (639507686,14), (639397310,14), (639286943,14), (639176584,14), (639066235,14), (638955894,14), (638845562,14), (638735238,14), (638624923,14), (638514618,14), (638404320,14), (638294032,14), (638183752,14), (638073481,14), (637963219,14),
    (637852965,14), (637742720,14), (637632484,14), (637522257,14), (637412038,14), (637301828,14), (637191627,14), (637081434,14), (636971250,14), (636861075,14), (636750909,14), (636640751,14), (636530602,14), (636420462,14), (636310331,14), (636200208,14),
    (636090094,14), (635979988,14), (635869892,14), (635759804,14), (635649725,14), (635539654,14), (635429592,14), (635319539,14), (635209495,14), (635099459,14), (634989432,14), (634879414,14), (634769404,14), (634659403,14), (634549411,14), (634439427,14),
    (634329453,14), (634219486,14), (634109529,14), (633999580,14), (633889640,14), (633779709,14), (633669786,14), (633559872,14), (633449967,14), (633340070,14), (633230182,14), (633120303,14), (633010433,14), (632900571,14), (632790717,14), (632680873,14),
    (632571037,14), (632461210,14), (632351392,14), (632241582,14), (632131781,14), (632021988,14), (631912204,14), (631802429,14), (631692663,14), (631582905,14), (631473156,14), (631363416,14), (631253684,14), (631143961,14), (631034246,14), (630924541,14),
    (630814843,14), (630705155,14), (630595475,14), (630485804,14), (630376142,14), (630266488,14), (630156843,14), (630047206,14), (629937578,14), (629827959,14), (629718349,14), (629608747,14), (629499154,14), (629389569,14), (629279993,14), (629170426,14),
    (629060867,14), (628951317,14), (628841776,14), (628732243,14), (628622719,14), (628513204,14), (628403697,14), (628294199,14), (628184709,14), (628075228,14), (627965756,14), (627856292,14), (627746838,14), (627637391,14), (627527953,14), (627418524,14),
    (627309104,14), (627199692,14), (627090289,14), (626980894,14), (626871509,14), (626762131,14), (626652763,14), (626543403,14), (626434051,14), (626324708,14), (626215374,14), (626106049,14), (625996732,14), (625887423,14), (625778124,14), (625668832,14),
    (625559550,14), (625450276,14), (625341011,14), (625231754,14), (625122506,14), (625013267,14), (624904036,14), (624794814,14), (624685600,14), (624576395,14), (624467199,14), (624358011,14), (624248832,14), (624139661,14), (624030499,14), (623921346,14),
    (623812201,14), (623703064,14), (623593937,14), (623484818,14), (623375707,14), (623266606,14), (623157512,14), (623048428,14), (622939352,14), (622830284,14), (622721225,14), (622612175,14), (622503133,14), (622394100,14), (622285076,14), (622176060,14),
    (622067052,14), (621958053,14), (621849063,14), (621740082,14), (621631108,14), (621522144,14), (621413188,14), (621304241,14), (621195302,14), (621086372,14), (620977450,14), (620868537,14), (620759633,14), (620650737,14), (620541849,14), (620432970,14),
    (620324100,14), (620215239,14), (620106385,14), (619997541,14), (619888705,14), (619779878,14), (619671059,14), (619562248,14), (619453447,14), (619344653,14), (619235869,14), (619127093,14), (619018325,14), (618909566,14), (618800816,14), (618692074,14),
    (618583341,14), (618474616,14), (618365900,14), (618257192,14), (618148493,14), (618039802,14), (617931120,14), (617822447,14), (617713782,14), (617605125,14), (617496477,14), (617387838,14), (617279207,14), (617170585,14), (617061971,14), (616953366,14),
    (616844769,14), (616736181,14), (616627602,14), (616519030,14), (616410468,14), (616301914,14), (616193368,14), (616084831,14), (615976303,14), (615867783,14), (615759272,14), (615650769,14), (615542274,14), (615433789,14), (615325311,14), (615216842,14),
    (615108382,14), (614999930,14), (614891487,14), (614783052,14), (614674626,14), (614566208,14), (614457799,14), (614349398,14), (614241006,14), (614132623,14), (614024247,14), (613915881,14), (613807523,14), (613699173,14), (613590832,14), (613482499,14),
    (613374175,14), (613265859,14), (613157552,14), (613049253,14), (612940963,14), (612832682,14), (612724408,14), (612616144,14), (612507888,14), (612399640,14), (612291401,14), (612183170,14), (612074948,14), (611966734,14), (611858529,14), (611750332,14),
    (611642144,14), (611533964,14), (611425793,14), (611317630,14), (611209475,14), (611101329,14), (610993192,14), (610885063,14), (610776943,14), (610668831,14), (610560727,14), (610452632,14), (610344546,14), (610236468,14), (610128398,14), (610020337,14),
    (609912284,14), (609804240,14), (609696204,14), (609588177,14), (609480158,14), (609372148,14), (609264146,14), (609156153,14), (609048168,14), (608940191,14), (608832223,14), (608724264,14), (608616312,14), (608508370,14), (608400436,14), (608292510,14),
    (608184593,14), (608076684,14), (607968783,14), (607860891,14), (607753008,14), (607645133,14), (607537266,14), (607429408,14), (607321558,14), (607213717,14), (607105884,14), (606998060,14), (606890244,14), (606782436,14), (606674637,14), (606566847,14),
    (606459065,14), (606351291,14), (606243525,14), (606135769,14), (606028020,14), (605920280,14), (605812549,14), (605704825,14), (605597111,14), (605489404,14), (605381706,14), (605274017,14), (605166336,14), (605058663,14), (604950999,14), (604843343,14),
    (604735696,14), (604628057,14), (604520427,14), (604412805,14), (604305191,14), (604197586,14), (604089989,14), (603982401,14), (603874821,14), (603767249,14), (603659686,14), (603552131,14), (603444585,14), (603337047,14), (603229517,14), (603121996,14),
    (603014483,14), (602906979,14), (602799483,14), (602691996,14), (602584516,14), (602477046,14), (602369583,14), (602262129,14), (602154684,14), (602047247,14), (601939818,14), (601832398,14), (601724986,14), (601617582,14), (601510187,14), (601402800,14),
    (601295422,14), (601188052,14), (601080690,14), (600973337,14), (600865992,14), (600758656,14), (600651328,14), (600544008,14), (600436697,14), (600329394,14), (600222099,14), (600114813,14), (600007535,14), (599900266,14), (599793005,14), (599685752,14),
    (599578508,14), (599471272,14), (599364045,14), (599256825,14), (599149615,14), (599042412,14), (598935218,14), (598828033,14), (598720855,14), (598613686,14), (598506526,14), (598399373,14), (598292230,14), (598185094,14), (598077967,14), (597970848,14),
    (597863738,14), (597756636,14), (597649542,14), (597542457,14), (597435380,14), (597328311,14), (597221251,14), (597114199,14), (597007155,14), (596900120,14), (596793093,14), (596686074,14), (596579064,14), (596472062,14), (596365069,14), (596258084,14),
    (596151107,14), (596044138,14), (595937178,14), (595830226,14), (595723283,14), (595616348,14), (595509421,14), (595402502,14), (595295592,14), (595188691,14), (595081797,14), (594974912,14), (594868035,14), (594761167,14), (594654307,14), (594547455,14),
    (594440611,14), (594333776,14), (594226949,14), (594120131,14), (594013321,14), (593906519,14), (593799725,14), (593692940,14), (593586163,14), (593479395,14), (593372634,14), (593265882,14), (593159139,14), (593052403,14), (592945676,14), (592838958,14),
    (592732247,14), (592625545,14), (592518851,14), (592412166,14), (592305489,14), (592198820,14), (592092159,14), (591985507,14), (591878863,14), (591772228,14), (591665600,14), (591558981,14), (591452371,14), (591345768,14), (591239174,14), (591132588,14),
    (591026011,14), (590919441,14), (590812881,14), (590706328,14), (590599784,14), (590493247,14), (590386720,14), (590280200,14), (590173689,14), (590067186,14), (589960691,14), (589854205,14), (589747727,14), (589641257,14), (589534796,14), (589428343,14),
    (589321898,14), (589215461,14), (589109033,14), (589002613,14), (588896201,14), (588789797,14), (588683402,14), (588577015,14), (588470636,14), (588364266,14), (588257904,14), (588151550,14), (588045204,14), (587938867,14), (587832538,14), (587726217,14),
    (587619904,14), (587513600,14), (587407304,14), (587301016,14), (587194737,14), (587088465,14), (586982202,14), (586875948,14), (586769701,14), (586663463,14), (586557233,14), (586451011,14), (586344798,14), (586238592,14), (586132395,14), (586026207,14),
    (585920026,14), (585813854,14), (585707690,14), (585601534,14), (585495387,14), (585389248,14), (585283117,14), (585176994,14), (585070879,14), (584964773,14), (584858675,14), (584752585,14), (584646504,14), (584540431,14), (584434365,14), (584328309,14),
    (584222260,14), (584116220,14), (584010188,14), (583904164,14), (583798148,14), (583692140,14), (583586141,14), (583480150,14), (583374168,14), (583268193,14), (583162227,14), (583056269,14), (582950319,14), (582844377,14), (582738444,14), (582632518,14),
    (582526601,14), (582420693,14), (582314792,14), (582208900,14), (582103016,14), (581997140,14), (581891272,14), (581785413,14), (581679561,14), (581573718,14), (581467883,14), (581362057,14), (581256238,14), (581150428,14), (581044626,14), (580938832,14),
    (580833047,14), (580727269,14), (580621500,14), (580515739,14), (580409986,14), (580304242,14), (580198505,14), (580092777,14), (579987057,14), (579881345,14), (579775642,14), (579669946,14), (579564259,14), (579458580,14), (579352909,14), (579247246,14),
    (579141592,14), (579035946,14), (578930307,14), (578824678,14), (578719056,14), (578613442,14), (578507837,14), (578402240,14), (578296651,14), (578191070,14), (578085497,14), (577979933,14), (577874376,14), (577768828,14), (577663288,14), (577557757,14),
    (577452233,14), (577346718,14), (577241210,14), (577135711,14), (577030220,14), (576924738,14), (576819263,14), (576713797,14), (576608338,14), (576502888,14), (576397446,14), (576292013,14), (576186587,14), (576081170,14), (575975760,14), (575870359,14),
    (575764966,14), (575659581,14), (575554205,14), (575448836,14), (575343476,14), (575238124,14), (575132780,14), (575027444,14), (574922116,14), (574816797,14), (574711485,14), (574606182,14), (574500887,14), (574395600,14), (574290321,14), (574185050,14),
    (574079788,14), (573974533,14), (573869287,14), (573764049,14), (573658819,14), (573553597,14), (573448383,14), (573343178,14), (573237980,14), (573132791,14), (573027610,14), (572922437,14), (572817272,14), (572712115,14), (572606966,14), (572501826,14),
    (572396693,14), (572291569,14), (572186453,14), (572081345,14), (571976245,14), (571871153,14), (571766070,14), (571660994,14), (571555927,14), (571450867,14), (571345816,14), (571240773,14), (571135738,14), (571030711,14), (570925693,14), (570820682,14),
    (570715680,14), (570610685,14), (570505699,14), (570400721,14), (570295751,14), (570190789,14), (570085835,14), (569980889,14), (569875952,14), (569771022,14), (569666101,14), (569561187,14), (569456282,14), (569351385,14), (569246496,14), (569141615,14),
    (569036742,14), (568931878,14), (568827021,14), (568722172,14), (568617332,14), (568512500,14), (568407675,14), (568302859,14), (568198051,14), (568093251,14), (567988459,14), (567883676,14), (567778900,14), (567674132,14), (567569373,14), (567464621,14),
    (567359878,14), (567255143,14), (567150415,14), (567045696,14), (566940985,14), (566836282,14), (566731587,14), (566626900,14), (566522222,14), (566417551,14), (566312888,14), (566208234,14), (566103587,14), (565998949,14), (565894319,14), (565789697,14),
    (565685082,14), (565580476,14), (565475878,14), (565371288,14), (565266706,14), (565162132,14), (565057567,14), (564953009,14), (564848459,14), (564743918,14), (564639384,14), (564534859,14), (564430341,14), (564325832,14), (564221330,14), (564116837,14),
    (564012352,14), (563907875,14), (563803406,14), (563698945,14), (563594492,14), (563490047,14), (563385610,14), (563281181,14), (563176760,14), (563072347,14), (562967942,14), (562863546,14), (562759157,14), (562654776,14), (562550404,14), (562446039,14),
    (562341683,14), (562237334,14), (562132994,14), (562028662,14), (561924337,14), (561820021,14), (561715713,14), (561611412,14), (561507120,14), (561402836,14), (561298560,14), (561194292,14), (561090031,14), (560985779,14), (560881535,14), (560777299,14),
    (560673071,14), (560568851,14), (560464639,14), (560360435,14), (560256239,14), (560152051,14), (560047871,14), (559943700,14), (559839536,14), (559735380,14), (559631232,14), (559527092,14), (559422960,14), (559318837,14), (559214721,14), (559110613,14),
    (559006513,14), (558902421,14), (558798338,14), (558694262,14), (558590194,14), (558486134,14), (558382083,14), (558278039,14), (558174003,14), (558069975,14), (557965956,14), (557861944,14), (557757940,14), (557653944,14), (557549957,14), (557445977,14),
    (557342005,14), (557238041,14), (557134086,14), (557030138,14), (556926198,14), (556822266,14), (556718342,14), (556614426,14), (556510519,14), (556406619,14), (556302727,14), (556198843,14), (556094967,14), (555991099,14), (555887239,14), (555783387,14),
    (555679543,14), (555575707,14), (555471879,14), (555368059,14), (555264247,14), (555160443,14), (555056647,14), (554952858,14), (554849078,14), (554745306,14), (554641542,14), (554537785,14), (554434037,14), (554330297,14), (554226564,14), (554122840,14),
    (554019123,14), (553915415,14), (553811714,14), (553708022,14), (553604337,14), (553500661,14), (553396992,14), (553293331,14), (553189678,14), (553086033,14), (552982397,14), (552878768,14), (552775147,14), (552671534,14), (552567929,14), (552464332,14),
    (552360742,14), (552257161,14), (552153588,14), (552050023,14), (551946465,14), (551842916,14), (551739374,14), (551635841,14), (551532315,14), (551428797,14), (551325288,14), (551221786,14), (551118292,14), (551014806,14), (550911328,14), (550807858,14),
    (550704396,14), (550600942,14), (550497496,14), (550394057,14), (550290627,14), (550187205,14), (550083790,14), (549980384,14), (549876985,14), (549773594,14), (549670211,14), (549566836,14), (549463470,14), (549360111,14), (549256759,14), (549153416,14),
    (549050081,14), (548946754,14), (548843434,14), (548740123,14), (548636819,14), (548533523,14), (548430236,14), (548326956,14), (548223684,14), (548120420,14), (548017164,14), (547913916,14), (547810675,14), (547707443,14), (547604218,14), (547501002,14),
    (547397793,14), (547294592,14), (547191400,14), (547088215,14), (546985038,14), (546881868,14), (546778707,14), (546675554,14), (546572408,14), (546469271,14), (546366141,14), (546263019,14), (546159905,14), (546056799,14), (545953701,14), (545850611,14),
    (545747529,14), (545644455,14), (545541388,14), (545438329,14), (545335279,14), (545232236,14), (545129201,14), (545026174,14), (544923155,14), (544820143,14), (544717140,14), (544614144,14), (544511157,14), (544408177,14), (544305205,14), (544202241,14),
    (544099285,14), (543996336,14), (543893396,14), (543790463,14), (543687539,14), (543584622,14), (543481713,14), (543378812,14), (543275919,14), (543173033,14), (543070156,14), (542967286,14), (542864425,14), (542761571,14), (542658725,14), (542555887,14),
    (542453057,14), (542350234,14), (542247420,14), (542144613,14), (542041814,14), (541939023,14), (541836240,14), (541733465,14), (541630697,14), (541527938,14), (541425186,14), (541322442,14), (541219706,14), (541116978,14), (541014258,14), (540911546,14),
    (540808841,14), (540706144,14), (540603455,14), (540500774,14), (540398101,14), (540295436,14), (540192778,14), (540090129,14), (539987487,14), (539884853,14), (539782227,14), (539679608,14), (539576998,14), (539474395,14), (539371800,14), (539269213,14),
    (539166634,14), (539064063,14), (538961499,14), (538858944,14), (538756396,14), (538653856,14), (538551324,14), (538448799,14), (538346283,14), (538243774,14), (538141273,14), (538038780,14), (537936295,14), (537833818,14), (537731348,14), (537628886,14),
    (537526433,14), (537423986,14), (537321548,14), (537219118,14), (537116695,14), (537014280,14), (536911873,14), (536809474,14), (536707082,14), (536604699,14), (536502323,14), (536399955,14), (536297595,14), (536195243,14), (536092898,14), (535990561,14),
    (535888232,14), (535785911,14), (535683598,14), (535581292,14), (535478995,14), (535376705,14), (535274423,14), (535172148,14), (535069882,14), (534967623,14), (534865372,14), (534763129,14), (534660893,14), (534558666,14), (534456446,14), (534354234,14),
    (534252030,14), (534149834,14), (534047645,14), (533945464,14), (533843291,14), (533741126,14), (533638968,14), (533536819,14), (533434677,14), (533332543,14), (533230416,14), (533128298,14), (533026187,14), (532924084,14), (532821989,14), (532719901,14),
    (532617822,14), (532515750,14), (532413686,14), (532311629,14), (532209581,14), (532107540,14), (532005507,14), (531903482,14), (531801464,14), (531699455,14), (531597453,14), (531495459,14), (531393472,14), (531291493,14), (531189523,14), (531087559,14),
    (530985604,14), (530883656,14), (530781717,14), (530679785,14), (530577860,14), (530475944,14), (530374035,14), (530272134,14), (530170241,14), (530068355,14), (529966477,14), (529864607,14), (529762745,14), (529660890,14), (529559044,14), (529457205,14),
    (529355373,14), (529253550,14), (529151734,14), (529049926,14), (528948126,14), (528846333,14), (528744548,14), (528642771,14), (528541002,14), (528439240,14), (528337486,14), (528235740,14), (528134002,14), (528032271,14), (527930548,14), (527828833,14),
    (527727126,14), (527625426,14), (527523734,14), (527422050,14), (527320373,14), (527218704,14), (527117043,14), (527015390,14), (526913744,14), (526812107,14), (526710476,14), (526608854,14), (526507239,14), (526405632,14), (526304033,14), (526202442,14),
    (526100858,14), (525999282,14), (525897713,14), (525796153,14), (525694600,14), (525593054,14), (525491517,14), (525389987,14), (525288465,14), (525186951,14), (525085444,14), (524983945,14), (524882454,14), (524780970,14), (524679494,14), (524578026,14),
    (524476566,14), (524375113,14), (524273668,14), (524172231,14), (524070801,14), (523969379,14), (523867965,14), (523766559,14), (523665160,14), (523563769,14), (523462385,14), (523361009,14), (523259641,14), (523158281,14), (523056929,14), (522955584,14),
    (522854246,14), (522752917,14), (522651595,14), (522550281,14), (522448974,14), (522347675,14), (522246384,14), (522145101,14), (522043825,14), (521942557,14), (521841297,14), (521740044,14), (521638799,14), (521537562,14), (521436332,14), (521335110,14),
    (521233896,14), (521132689,14), (521031490,14), (520930299,14), (520829115,14), (520727939,14), (520626771,14), (520525610,14), (520424458,14), (520323312,14), (520222175,14), (520121045,14), (520019923,14), (519918808,14), (519817701,14), (519716602,14),
    (519615510,14), (519514426,14), (519413350,14), (519312281,14), (519211221,14), (519110167,14), (519009122,14), (518908084,14), (518807053,14), (518706031,14), (518605016,14), (518504008,14), (518403009,14), (518302017,14), (518201032,14), (518100056,14),
    (517999087,14), (517898125,14), (517797171,14), (517696225,14), (517595287,14), (517494356,14), (517393433,14), (517292517,14), (517191609,14), (517090709,14), (516989816,14), (516888931,14), (516788054,14), (516687184,14), (516586322,14), (516485468,14),
    (516384621,14), (516283782,14), (516182950,14), (516082126,14), (515981310,14), (515880501,14), (515779700,14), (515678907,14), (515578121,14), (515477343,14), (515376573,14), (515275810,14), (515175055,14), (515074307,14), (514973567,14), (514872835,14),
    (514772110,14), (514671393,14), (514570683,14), (514469981,14), (514369287,14), (514268600,14), (514167921,14), (514067250,14), (513966586,14), (513865930,14), (513765281,14), (513664640,14), (513564007,14), (513463381,14), (513362763,14), (513262153,14),
    (513161550,14), (513060954,14), (512960367,14), (512859787,14), (512759214,14), (512658649,14), (512558092,14), (512457542,14), (512357000,14), (512256466,14), (512155939,14), (512055420,14), (511954908,14), (511854404,14), (511753907,14), (511653419,14),
    (511552937,14), (511452464,14), (511351997,14), (511251539,14), (511151088,14), (511050645,14), (510950209,14), (510849781,14), (510749360,14), (510648947,14), (510548542,14), (510448144,14), (510347754,14), (510247371,14), (510146996,14), (510046628,14),
    (509946269,14), (509845916,14), (509745572,14), (509645234,14), (509544905,14), (509444583,14), (509344268,14), (509243961,14), (509143662,14), (509043370,14), (508943086,14), (508842810,14), (508742541,14), (508642279,14), (508542025,14), (508441779,14),
    (508341540,14), (508241309,14), (508141086,14), (508040870,14), (507940661,14), (507840460,14), (507740267,14), (507640081,14), (507539903,14), (507439732,14), (507339569,14), (507239413,14), (507139265,14), (507039125,14), (506938992,14), (506838867,14),
    (506738749,14), (506638639,14), (506538536,14), (506438441,14), (506338353,14), (506238273,14), (506138201,14), (506038136,14), (505938079,14), (505838029,14), (505737987,14), (505637952,14), (505537925,14), (505437905,14), (505337893,14), (505237888,14),
    (505137891,14), (505037902,14), (504937920,14), (504837945,14), (504737978,14), (504638019,14), (504538067,14), (504438123,14), (504338186,14), (504238257,14), (504138335,14), (504038421,14), (503938514,14), (503838615,14), (503738724,14), (503638840,14),
    (503538963,14), (503439094,14), (503339233,14), (503239379,14), (503139532,14), (503039693,14), (502939862,14), (502840038,14), (502740222,14), (502640413,14), (502540612,14), (502440818,14), (502341032,14), (502241253,14), (502141482,14), (502041718,14),
    (501941962,14), (501842213,14), (501742472,14), (501642738,14), (501543012,14), (501443293,14), (501343582,14), (501243878,14), (501144182,14), (501044493,14), (500944812,14), (500845139,14), (500745473,14), (500645814,14), (500546163,14), (500446519,14),
    (500346883,14), (500247254,14), (500147633,14), (500048020,14), (499948413,14), (499848815,14), (499749224,14), (499649640,14), (499550064,14), (499450495,14), (499350934,14), (499251380,14), (499151834,14), (499052295,14), (498952764,14), (498853240,14),
    (498753724,14), (498654215,14), (498554714,14), (498455220,14), (498355734,14), (498256255,14), (498156783,14), (498057319,14), (497957863,14), (497858414,14), (497758973,14), (497659539,14), (497560112,14), (497460693,14), (497361281,14), (497261877,14),
    (497162481,14), (497063091,14), (496963710,14), (496864336,14), (496764969,14), (496665610,14), (496566258,14), (496466913,14), (496367576,14), (496268247,14), (496168925,14), (496069611,14), (495970304,14), (495871004,14), (495771712,14), (495672427,14),
    (495573150,14), (495473880,14), (495374618,14), (495275363,14), (495176116,14), (495076876,14), (494977643,14), (494878418,14), (494779201,14), (494679991,14), (494580788,14), (494481593,14), (494382405,14), (494283225,14), (494184052,14), (494084887,14),
    (493985729,14), (493886578,14), (493787435,14), (493688299,14), (493589171,14), (493490050,14), (493390937,14), (493291831,14), (493192733,14), (493093642,14), (492994558,14), (492895482,14), (492796413,14), (492697352,14), (492598298,14), (492499252,14),
    (492400213,14), (492301181,14), (492202157,14), (492103140,14), (492004131,14), (491905129,14), (491806135,14), (491707148,14), (491608168,14), (491509196,14), (491410232,14), (491311274,14), (491212324,14), (491113382,14), (491014447,14), (490915519,14),
    (490816599,14), (490717686,14), (490618781,14), (490519883,14), (490420993,14), (490322109,14), (490223234,14), (490124365,14), (490025505,14), (489926651,14), (489827805,14), (489728966,14), (489630135,14), (489531311,14), (489432495,14), (489333686,14),
    (489234884,14), (489136090,14), (489037303,14), (488938524,14), (488839752,14), (488740987,14), (488642230,14), (488543480,14), (488444738,14), (488346003,14), (488247275,14), (488148555,14), (488049842,14), (487951137,14), (487852439,14), (487753748,14),
    (487655065,14), (487556389,14), (487457721,14), (487359060,14), (487260406,14), (487161760,14), (487063121,14), (486964489,14), (486865865,14), (486767248,14), (486668639,14), (486570037,14), (486471442,14), (486372855,14), (486274275,14), (486175703,14),
    (486077138,14), (485978580,14), (485880030,14), (485781487,14), (485682951,14), (485584423,14), (485485902,14), (485387388,14), (485288882,14), (485190384,14), (485091892,14), (484993408,14), (484894932,14), (484796462,14), (484698001,14), (484599546,14),
    (484501099,14), (484402659,14), (484304227,14), (484205802,14), (484107384,14), (484008973,14), (483910570,14), (483812175,14), (483713787,14), (483615406,14), (483517032,14), (483418666,14), (483320307,14), (483221956,14), (483123611,14), (483025275,14),
    (482926945,14), (482828623,14), (482730308,14), (482632001,14), (482533701,14), (482435408,14), (482337123,14), (482238845,14), (482140574,14), (482042311,14), (481944055,14), (481845807,14), (481747565,14), (481649331,14), (481551105,14), (481452885,14),
    (481354674,14), (481256469,14), (481158272,14), (481060082,14), (480961899,14), (480863724,14), (480765556,14), (480667396,14), (480569242,14), (480471096,14), (480372958,14), (480274827,14), (480176703,14), (480078586,14), (479980477,14), (479882375,14),
    (479784280,14), (479686193,14), (479588113,14), (479490040,14), (479391975,14), (479293917,14), (479195866,14), (479097823,14), (478999787,14), (478901758,14), (478803737,14), (478705723,14), (478607716,14), (478509717,14), (478411724,14), (478313740,14),
    (478215762,14), (478117792,14), (478019829,14), (477921873,14), (477823925,14), (477725984,14), (477628051,14), (477530124,14), (477432205,14), (477334293,14), (477236389,14), (477138492,14), (477040602,14), (476942719,14), (476844844,14), (476746976,14),
    (476649116,14), (476551262,14), (476453416,14), (476355578,14), (476257746,14), (476159922,14), (476062105,14), (475964296,14), (475866493,14), (475768698,14), (475670911,14), (475573130,14), (475475357,14), (475377591,14), (475279833,14), (475182082,14),
    (475084338,14), (474986601,14), (474888872,14), (474791150,14), (474693435,14), (474595727,14), (474498027,14), (474400334,14), (474302648,14), (474204970,14), (474107299,14), (474009635,14), (473911978,14), (473814329,14), (473716687,14), (473619052,14),
    (473521425,14), (473423804,14), (473326192,14), (473228586,14), (473130987,14), (473033396,14), (472935812,14), (472838236,14), (472740667,14), (472643104,14), (472545550,14), (472448002,14), (472350462,14), (472252929,14), (472155403,14), (472057885,14),
    (471960373,14), (471862869,14), (471765373,14), (471667883,14), (471570401,14), (471472926,14), (471375458,14), (471277998,14), (471180545,14), (471083099,14), (470985660,14), (470888229,14), (470790805,14), (470693388,14), (470595978,14), (470498576,14),
    (470401181,14), (470303793,14), (470206412,14), (470109038,14), (470011672,14), (469914313,14), (469816962,14), (469719617,14), (469622280,14), (469524950,14), (469427627,14), (469330312,14), (469233003,14), (469135702,14), (469038409,14), (468941122,14),
    (468843843,14), (468746571,14), (468649306,14), (468552048,14), (468454798,14), (468357555,14), (468260319,14), (468163090,14), (468065868,14), (467968654,14), (467871447,14), (467774247,14), (467677055,14), (467579869,14), (467482691,14), (467385520,14),
    (467288357,14), (467191200,14), (467094051,14), (466996909,14), (466899774,14), (466802647,14), (466705526,14), (466608413,14), (466511307,14), (466414208,14), (466317117,14), (466220033,14), (466122955,14), (466025886,14), (465928823,14), (465831767,14),
    (465734719,14), (465637678,14), (465540644,14), (465443618,14), (465346598,14), (465249586,14), (465152581,14), (465055583,14), (464958593,14), (464861609,14), (464764633,14), (464667664,14), (464570702,14), (464473747,14), (464376800,14), (464279860,14),
    (464182927,14), (464086001,14), (463989082,14), (463892171,14), (463795267,14), (463698370,14), (463601480,14), (463504597,14), (463407722,14), (463310853,14), (463213992,14), (463117138,14), (463020291,14), (462923452,14), (462826619,14), (462729794,14),
    (462632976,14), (462536165,14), (462439362,14), (462342565,14), (462245776,14), (462148994,14), (462052219,14), (461955451,14), (461858691,14), (461761937,14), (461665191,14), (461568452,14), (461471720,14), (461374996,14), (461278278,14), (461181568,14),
    (461084864,14), (460988168,14), (460891480,14), (460794798,14), (460698123,14), (460601456,14), (460504796,14), (460408143,14), (460311497,14), (460214858,14), (460118227,14), (460021602,14), (459924985,14), (459828375,14), (459731772,14), (459635176,14),
    (459538588,14), (459442006,14), (459345432,14), (459248865,14), (459152305,14), (459055752,14), (458959207,14), (458862668,14), (458766137,14), (458669613,14), (458573096,14), (458476586,14), (458380083,14), (458283587,14), (458187099,14), (458090618,14),
    (457994143,14), (457897676,14), (457801217,14), (457704764,14), (457608318,14), (457511880,14), (457415448,14), (457319024,14), (457222607,14), (457126197,14), (457029795,14), (456933399,14), (456837010,14), (456740629,14), (456644255,14), (456547888,14),
    (456451528,14), (456355175,14), (456258829,14), (456162491,14), (456066159,14), (455969835,14), (455873518,14), (455777208,14), (455680905,14), (455584609,14), (455488320,14), (455392039,14), (455295764,14), (455199497,14), (455103237,14), (455006984,14),
    (454910738,14), (454814499,14), (454718267,14), (454622043,14), (454525825,14), (454429615,14), (454333411,14), (454237215,14), (454141026,14), (454044844,14), (453948670,14), (453852502,14), (453756341,14), (453660188,14), (453564041,14), (453467902,14),
    (453371770,14), (453275645,14), (453179527,14), (453083416,14), (452987313,14), (452891216,14), (452795126,14), (452699044,14), (452602969,14), (452506900,14), (452410839,14), (452314785,14), (452218738,14), (452122698,14), (452026666,14), (451930640,14),
    (451834621,14), (451738610,14), (451642606,14), (451546608,14), (451450618,14), (451354635,14), (451258659,14), (451162690,14), (451066728,14), (450970774,14), (450874826,14), (450778885,14), (450682952,14), (450587025,14), (450491106,14), (450395194,14),
    (450299289,14), (450203391,14), (450107500,14), (450011616,14), (449915739,14), (449819869,14), (449724007,14), (449628151,14), (449532302,14), (449436461,14), (449340627,14), (449244799,14), (449148979,14), (449053166,14), (448957360,14), (448861561,14),
    (448765769,14), (448669984,14), (448574206,14), (448478435,14), (448382672,14), (448286915,14), (448191165,14), (448095423,14), (447999687,14), (447903959,14), (447808238,14), (447712524,14), (447616816,14), (447521116,14), (447425423,14), (447329737,14),
    (447234058,14), (447138386,14), (447042721,14), (446947064,14), (446851413,14), (446755769,14), (446660133,14), (446564503,14), (446468880,14), (446373265,14), (446277657,14), (446182055,14), (446086461,14), (445990873,14), (445895293,14), (445799720,14),
    (445704154,14), (445608595,14), (445513043,14), (445417498,14), (445321960,14), (445226429,14), (445130905,14), (445035388,14), (444939878,14), (444844375,14), (444748879,14), (444653391,14), (444557909,14), (444462434,14), (444366967,14), (444271506,14),
    (444176053,14), (444080606,14), (443985167,14), (443889734,14), (443794309,14), (443698890,14), (443603479,14), (443508074,14), (443412677,14), (443317287,14), (443221904,14), (443126527,14), (443031158,14), (442935796,14), (442840441,14), (442745092,14),
    (442649751,14), (442554417,14), (442459090,14), (442363770,14), (442268457,14), (442173151,14), (442077852,14), (441982560,14), (441887275,14), (441791997,14), (441696726,14), (441601462,14), (441506205,14), (441410955,14), (441315712,14), (441220476,14),
    (441125247,14), (441030025,14), (440934810,14), (440839602,14), (440744401,14), (440649207,14), (440554020,14), (440458840,14), (440363667,14), (440268501,14), (440173342,14), (440078190,14), (439983045,14), (439887907,14), (439792776,14), (439697652,14),
    (439602536,14), (439507426,14), (439412323,14), (439317227,14), (439222138,14), (439127056,14), (439031981,14), (438936913,14), (438841852,14), (438746797,14), (438651750,14), (438556710,14), (438461677,14), (438366651,14), (438271632,14), (438176620,14),
    (438081615,14), (437986617,14), (437891625,14), (437796641,14), (437701664,14), (437606694,14), (437511730,14), (437416774,14), (437321825,14), (437226882,14), (437131947,14), (437037019,14), (436942097,14), (436847183,14), (436752275,14), (436657375,14),
    (436562481,14), (436467595,14), (436372715,14), (436277842,14), (436182977,14), (436088118,14), (435993266,14), (435898422,14), (435803584,14), (435708753,14), (435613929,14), (435519112,14), (435424302,14), (435329499,14), (435234703,14), (435139914,14),
    (435045132,14), (434950357,14), (434855588,14), (434760827,14), (434666073,14), (434571325,14), (434476585,14), (434381852,14), (434287125,14), (434192406,14), (434097693,14), (434002987,14), (433908289,14), (433813597,14), (433718912,14), (433624234,14),
    (433529563,14), (433434899,14), (433340242,14), (433245592,14), (433150949,14), (433056313,14), (432961684,14), (432867061,14), (432772446,14), (432677837,14), (432583236,14), (432488641,14), (432394054,14), (432299473,14), (432204899,14), (432110332,14),
    (432015773,14), (431921220,14), (431826674,14), (431732134,14), (431637602,14), (431543077,14), (431448559,14), (431354047,14), (431259543,14), (431165045,14), (431070555,14), (430976071,14), (430881594,14), (430787124,14), (430692661,14), (430598206,14),
    (430503756,14), (430409314,14), (430314879,14), (430220451,14), (430126029,14), (430031615,14), (429937207,14), (429842807,14), (429748413,14), (429654026,14), (429559646,14), (429465273,14), (429370907,14), (429276548,14), (429182196,14), (429087850,14),
    (428993512,14), (428899180,14), (428804856,14), (428710538,14), (428616227,14), (428521923,14), (428427626,14), (428333336,14), (428239053,14), (428144777,14), (428050507,14), (427956245,14), (427861989,14), (427767741,14), (427673499,14), (427579264,14),
    (427485036,14), (427390815,14), (427296600,14), (427202393,14), (427108193,14), (427013999,14), (426919813,14), (426825633,14), (426731460,14), (426637294,14), (426543135,14), (426448983,14), (426354837,14), (426260699,14), (426166567,14), (426072443,14),
    (425978325,14), (425884214,14), (425790110,14), (425696013,14), (425601923,14), (425507839,14), (425413763,14), (425319693,14), (425225631,14), (425131575,14), (425037526,14), (424943484,14), (424849449,14), (424755420,14), (424661399,14), (424567384,14),
    (424473377,14), (424379376,14), (424285382,14), (424191395,14), (424097414,14), (424003441,14), (423909475,14), (423815515,14), (423721562,14), (423627616,14), (423533677,14), (423439745,14), (423345820,14), (423251901,14), (423157990,14), (423064085,14),
    (422970187,14), (422876296,14), (422782412,14), (422688535,14), (422594664,14), (422500801,14), (422406944,14), (422313094,14), (422219251,14), (422125415,14), (422031586,14), (421937763,14), (421843948,14), (421750139,14), (421656337,14), (421562542,14),
    (421468754,14), (421374973,14), (421281198,14), (421187430,14), (421093670,14), (420999916,14), (420906168,14), (420812428,14), (420718695,14), (420624968,14), (420531248,14), (420437535,14), (420343829,14), (420250130,14), (420156438,14), (420062752,14),
    (419969074,14), (419875402,14), (419781737,14), (419688078,14), (419594427,14), (419500782,14), (419407145,14), (419313514,14), (419219890,14), (419126273,14), (419032662,14), (418939059,14), (418845462,14), (418751872,14), (418658289,14), (418564713,14),
    (418471143,14), (418377580,14), (418284025,14), (418190476,14), (418096934,14), (418003398,14), (417909870,14), (417816348,14), (417722833,14), (417629325,14), (417535824,14), (417442329,14), (417348842,14), (417255361,14), (417161887,14), (417068420,14),
    (416974960,14), (416881506,14), (416788059,14), (416694619,14), (416601186,14), (416507760,14), (416414340,14), (416320928,14), (416227522,14), (416134123,14), (416040731,14), (415947345,14), (415853966,14), (415760595,14), (415667230,14), (415573871,14),
    (415480520,14), (415387175,14), (415293837,14), (415200506,14), (415107182,14), (415013865,14), (414920554,14), (414827250,14), (414733953,14), (414640663,14), (414547379,14), (414454102,14), (414360833,14), (414267569,14), (414174313,14), (414081064,14),
    (413987821,14), (413894585,14), (413801356,14), (413708133,14), (413614918,14), (413521709,14), (413428507,14), (413335312,14), (413242123,14), (413148941,14), (413055767,14), (412962598,14), (412869437,14), (412776283,14), (412683135,14), (412589994,14),
    (412496860,14), (412403732,14), (412310611,14), (412217498,14), (412124390,14), (412031290,14), (411938196,14), (411845110,14), (411752030,14), (411658956,14), (411565890,14), (411472830,14), (411379777,14), (411286731,14), (411193692,14), (411100659,14),
    (411007633,14), (410914614,14), (410821601,14), (410728596,14), (410635597,14), (410542605,14), (410449620,14), (410356641,14), (410263669,14), (410170704,14), (410077746,14), (409984794,14), (409891850,14), (409798912,14), (409705980,14), (409613056,14),
    (409520138,14), (409427227,14), (409334323,14), (409241425,14), (409148535,14), (409055651,14), (408962773,14), (408869903,14), (408777039,14), (408684182,14), (408591332,14), (408498488,14), (408405651,14), (408312821,14), (408219998,14), (408127182,14),
    (408034372,14), (407941569,14), (407848772,14), (407755983,14), (407663200,14), (407570424,14), (407477654,14), (407384892,14), (407292136,14), (407199387,14), (407106644,14), (407013909,14), (406921180,14), (406828457,14), (406735742,14), (406643033,14),
    (406550331,14), (406457636,14), (406364947,14), (406272265,14), (406179590,14), (406086922,14), (405994260,14), (405901605,14), (405808957,14), (405716315,14), (405623681,14), (405531053,14), (405438431,14), (405345817,14), (405253209,14), (405160608,14),
    (405068013,14), (404975425,14), (404882844,14), (404790270,14), (404697702,14), (404605141,14), (404512587,14), (404420040,14), (404327499,14), (404234965,14), (404142438,14), (404049917,14), (403957403,14), (403864896,14), (403772395,14), (403679902,14),
    (403587415,14), (403494934,14), (403402461,14), (403309994,14), (403217533,14), (403125080,14), (403032633,14), (402940193,14), (402847759,14), (402755333,14), (402662913,14), (402570499,14), (402478093,14), (402385693,14), (402293299,14), (402200913,14),
    (402108533,14), (402016160,14), (401923793,14), (401831433,14), (401739080,14), (401646734,14), (401554394,14), (401462061,14), (401369735,14), (401277415,14), (401185102,14), (401092796,14), (401000496,14), (400908203,14), (400815917,14), (400723638,14),
    (400631365,14), (400539099,14), (400446839,14), (400354586,14), (400262340,14), (400170101,14), (400077868,14), (399985642,14), (399893422,14), (399801210,14), (399709004,14), (399616804,14), (399524611,14), (399432425,14), (399340246,14), (399248073,14),
    (399155907,14), (399063748,14), (398971595,14), (398879449,14), (398787310,14), (398695177,14), (398603051,14), (398510932,14), (398418819,14), (398326713,14), (398234614,14), (398142521,14), (398050435,14), (397958356,14), (397866283,14), (397774217,14),
    (397682158,14), (397590105,14), (397498059,14), (397406019,14), (397313987,14), (397221960,14), (397129941,14), (397037928,14), (396945922,14), (396853923,14), (396761930,14), (396669944,14), (396577964,14), (396485991,14), (396394025,14), (396302065,14),
    (396210113,14), (396118166,14), (396026227,14), (395934294,14), (395842367,14), (395750448,14), (395658535,14), (395566628,14), (395474728,14), (395382835,14), (395290949,14), (395199069,14), (395107196,14), (395015329,14), (394923469,14), (394831616,14),
    (394739769,14), (394647929,14), (394556096,14), (394464269,14), (394372449,14), (394280636,14), (394188829,14), (394097029,14), (394005235,14), (393913448,14), (393821668,14), (393729894,14), (393638127,14), (393546366,14), (393454613,14), (393362866,14),
    (393271125,14), (393179391,14), (393087664,14), (392995943,14), (392904229,14), (392812522,14), (392720821,14), (392629126,14), (392537439,14), (392445758,14), (392354084,14), (392262416,14), (392170755,14), (392079100,14), (391987452,14), (391895811,14),
    (391804176,14), (391712548,14), (391620927,14), (391529312,14), (391437704,14), (391346102,14), (391254507,14), (391162919,14), (391071337,14), (390979762,14), (390888194,14), (390796632,14), (390705076,14), (390613528,14), (390521985,14), (390430450,14),
    (390338921,14), (390247399,14), (390155883,14), (390064374,14), (389972871,14), (389881375,14), (389789886,14), (389698403,14), (389606927,14), (389515458,14), (389423995,14), (389332538,14), (389241089,14), (389149645,14), (389058209,14), (388966779,14),
    (388875355,14), (388783939,14), (388692528,14), (388601125,14), (388509728,14), (388418337,14), (388326953,14), (388235576,14), (388144206,14), (388052841,14), (387961484,14), (387870133,14), (387778789,14), (387687451,14), (387596120,14), (387504795,14),
    (387413477,14), (387322166,14), (387230861,14), (387139562,14), (387048271,14), (386956986,14), (386865707,14), (386774435,14), (386683170,14), (386591911,14), (386500659,14), (386409413,14), (386318174,14), (386226941,14), (386135715,14), (386044496,14),
    (385953283,14), (385862077,14), (385770877,14), (385679684,14), (385588497,14), (385497317,14), (385406144,14), (385314977,14), (385223816,14), (385132663,14), (385041515,14), (384950375,14), (384859241,14), (384768113,14), (384676992,14), (384585878,14),
    (384494770,14), (384403669,14), (384312574,14), (384221486,14), (384130404,14), (384039329,14), (383948260,14), (383857198,14), (383766143,14), (383675094,14), (383584052,14), (383493016,14), (383401987,14), (383310964,14), (383219948,14), (383128938,14),
    (383037935,14), (382946939,14), (382855949,14), (382764966,14), (382673989,14), (382583018,14), (382492055,14), (382401097,14), (382310147,14), (382219202,14), (382128265,14), (382037334,14), (381946409,14), (381855491,14), (381764580,14), (381673675,14),
    (381582776,14), (381491884,14), (381400999,14), (381310120,14), (381219248,14), (381128382,14), (381037523,14), (380946670,14), (380855824,14), (380764985,14), (380674152,14), (380583325,14), (380492505,14), (380401691,14), (380310884,14), (380220084,14),
    (380129290,14), (380038502,14), (379947722,14), (379856947,14), (379766179,14), (379675418,14), (379584663,14), (379493915,14), (379403173,14), (379312438,14), (379221709,14), (379130987,14), (379040271,14), (378949562,14), (378858859,14), (378768163,14),
    (378677473,14), (378586790,14), (378496113,14), (378405443,14), (378314780,14), (378224122,14), (378133472,14), (378042828,14), (377952190,14), (377861559,14), (377770934,14), (377680316,14), (377589705,14), (377499100,14), (377408501,14), (377317909,14),
    (377227323,14), (377136744,14), (377046172,14), (376955606,14), (376865046,14), (376774493,14), (376683946,14), (376593406,14), (376502873,14), (376412345,14), (376321825,14), (376231311,14), (376140803,14), (376050302,14), (375959807,14), (375869319,14),
    (375778837,14), (375688362,14), (375597893,14), (375507431,14), (375416976,14), (375326526,14), (375236084,14), (375145647,14), (375055217,14), (374964794,14), (374874377,14), (374783967,14), (374693563,14), (374603166,14), (374512775,14), (374422390,14),
    (374332013,14), (374241641,14), (374151276,14), (374060918,14), (373970566,14), (373880220,14), (373789881,14), (373699548,14), (373609222,14), (373518902,14), (373428589,14), (373338283,14), (373247982,14), (373157689,14), (373067401,14), (372977120,14),
    (372886846,14), (372796578,14), (372706317,14), (372616062,14), (372525813,14), (372435571,14), (372345335,14), (372255106,14), (372164884,14), (372074667,14), (371984458,14), (371894254,14), (371804058,14), (371713867,14), (371623683,14), (371533506,14),
    (371443335,14), (371353170,14), (371263012,14), (371172861,14), (371082715,14), (370992577,14), (370902444,14), (370812318,14), (370722199,14), (370632086,14), (370541980,14), (370451880,14), (370361786,14), (370271699,14), (370181618,14), (370091544,14),
    (370001476,14), (369911415,14), (369821360,14), (369731311,14), (369641269,14), (369551234,14), (369461205,14), (369371182,14), (369281166,14), (369191156,14), (369101153,14), (369011156,14), (368921165,14), (368831181,14), (368741203,14), (368651232,14),
    (368561267,14), (368471309,14), (368381357,14), (368291412,14), (368201473,14), (368111540,14), (368021614,14), (367931694,14), (367841781,14), (367751874,14), (367661973,14), (367572079,14), (367482192,14), (367392310,14), (367302436,14), (367212567,14),
    (367122705,14), (367032850,14), (366943001,14), (366853158,14), (366763322,14), (366673492,14), (366583669,14), (366493852,14), (366404041,14), (366314237,14), (366224439,14), (366134648,14), (366044863,14), (365955084,14), (365865312,14), (365775547,14),
    (365685787,14), (365596035,14), (365506288,14), (365416548,14), (365326814,14), (365237087,14), (365147366,14), (365057652,14), (364967944,14), (364878243,14), (364788547,14), (364698859,14), (364609176,14), (364519500,14), (364429831,14), (364340168,14),
    (364250511,14), (364160860,14), (364071216,14), (363981579,14), (363891948,14), (363802323,14), (363712705,14), (363623093,14), (363533487,14), (363443888,14), (363354295,14), (363264709,14), (363175129,14), (363085555,14), (362995988,14), (362906427,14),
    (362816873,14), (362727324,14), (362637783,14), (362548248,14), (362458719,14), (362369196,14), (362279680,14), (362190170,14), (362100667,14), (362011170,14), (361921679,14), (361832195,14), (361742717,14), (361653246,14), (361563781,14), (361474322,14),
    (361384870,14), (361295424,14), (361205985,14), (361116551,14), (361027125,14), (360937704,14), (360848290,14), (360758882,14), (360669481,14), (360580086,14), (360490698,14), (360401316,14), (360311940,14), (360222570,14), (360133207,14), (360043851,14),
    (359954500,14), (359865156,14), (359775819,14), (359686487,14), (359597163,14), (359507844,14), (359418532,14), (359329226,14), (359239927,14), (359150634,14), (359061347,14), (358972067,14), (358882793,14), (358793525,14), (358704264,14), (358615009,14),
    (358525761,14), (358436518,14), (358347283,14), (358258053,14), (358168830,14), (358079613,14), (357990403,14), (357901199,14), (357812001,14), (357722810,14), (357633625,14), (357544446,14), (357455274,14), (357366108,14), (357276948,14), (357187795,14),
    (357098648,14), (357009508,14), (356920373,14), (356831245,14), (356742124,14), (356653009,14), (356563900,14), (356474797,14), (356385701,14), (356296611,14), (356207528,14), (356118451,14), (356029380,14), (355940316,14), (355851257,14), (355762206,14),
    (355673160,14), (355584121,14), (355495088,14), (355406062,14), (355317042,14), (355228028,14), (355139020,14), (355050019,14), (354961025,14), (354872036,14), (354783054,14), (354694078,14), (354605109,14), (354516145,14), (354427189,14), (354338238,14),
    (354249294,14), (354160356,14), (354071425,14), (353982499,14), (353893580,14), (353804668,14), (353715762,14), (353626862,14), (353537968,14), (353449081,14), (353360200,14), (353271325,14), (353182457,14), (353093595,14), (353004739,14), (352915890,14),
    (352827047,14), (352738210,14), (352649379,14), (352560555,14), (352471738,14), (352382926,14), (352294121,14), (352205322,14), (352116529,14), (352027743,14), (351938963,14), (351850189,14), (351761422,14), (351672661,14), (351583906,14), (351495158,14),
    (351406416,14), (351317680,14), (351228950,14), (351140227,14), (351051510,14), (350962799,14), (350874095,14), (350785397,14), (350696705,14), (350608020,14), (350519341,14), (350430668,14), (350342001,14), (350253341,14), (350164687,14), (350076039,14),
    (349987398,14), (349898763,14), (349810134,14), (349721512,14), (349632895,14), (349544285,14), (349455682,14), (349367084,14), (349278493,14), (349189909,14), (349101330,14), (349012758,14), (348924192,14), (348835632,14), (348747079,14), (348658532,14),
    (348569991,14), (348481457,14), (348392928,14), (348304406,14), (348215891,14), (348127381,14), (348038878,14), (347950381,14), (347861891,14), (347773406,14), (347684928,14), (347596457,14), (347507991,14), (347419532,14), (347331079,14), (347242632,14),
    (347154192,14), (347065758,14), (346977330,14), (346888909,14), (346800493,14), (346712084,14), (346623681,14), (346535285,14), (346446895,14), (346358511,14), (346270133,14), (346181762,14), (346093396,14), (346005037,14), (345916685,14), (345828338,14),
    (345739998,14), (345651664,14), (345563337,14), (345475015,14), (345386700,14), (345298391,14), (345210089,14), (345121793,14), (345033502,14), (344945219,14), (344856941,14), (344768670,14), (344680405,14), (344592146,14), (344503893,14), (344415647,14),
    (344327407,14), (344239173,14), (344150946,14), (344062724,14), (343974509,14), (343886300,14), (343798098,14), (343709901,14), (343621711,14), (343533528,14), (343445350,14), (343357179,14), (343269013,14), (343180855,14), (343092702,14), (343004556,14),
    (342916415,14), (342828281,14), (342740154,14), (342652032,14), (342563917,14), (342475808,14), (342387705,14), (342299609,14), (342211519,14), (342123435,14), (342035357,14), (341947285,14), (341859220,14), (341771161,14), (341683108,14), (341595061,14),
    (341507021,14), (341418987,14), (341330959,14), (341242937,14), (341154922,14), (341066912,14), (340978909,14), (340890912,14), (340802922,14), (340714937,14), (340626959,14), (340538987,14), (340451021,14), (340363062,14), (340275109,14), (340187162,14),
    (340099221,14), (340011286,14), (339923358,14), (339835436,14), (339747520,14), (339659610,14), (339571706,14), (339483809,14), (339395918,14), (339308033,14), (339220154,14), (339132282,14), (339044415,14), (338956555,14), (338868701,14), (338780854,14),
    (338693012,14), (338605177,14), (338517348,14), (338429525,14), (338341709,14), (338253898,14), (338166094,14), (338078296,14), (337990504,14), (337902718,14), (337814939,14), (337727166,14), (337639399,14), (337551638,14), (337463883,14), (337376135,14),
    (337288393,14), (337200657,14), (337112927,14), (337025203,14), (336937486,14), (336849774,14), (336762069,14), (336674371,14), (336586678,14), (336498991,14), (336411311,14), (336323637,14), (336235969,14), (336148307,14), (336060652,14), (335973002,14),
    (335885359,14), (335797722,14), (335710092,14), (335622467,14), (335534849,14), (335447236,14), (335359630,14), (335272030,14), (335184437,14), (335096849,14), (335009268,14), (334921693,14), (334834124,14), (334746561,14), (334659004,14), (334571454,14),
    (334483910,14), (334396371,14), (334308840,14), (334221314,14), (334133794,14), (334046281,14), (333958774,14), (333871273,14), (333783778,14), (333696289,14), (333608806,14), (333521330,14), (333433860,14), (333346396,14), (333258938,14), (333171486,14),
    (333084041,14), (332996601,14), (332909168,14), (332821741,14), (332734320,14), (332646905,14), (332559497,14), (332472094,14), (332384698,14), (332297308,14), (332209924,14), (332122546,14), (332035175,14), (331947809,14), (331860450,14), (331773097,14),
    (331685750,14), (331598409,14), (331511074,14), (331423746,14), (331336424,14), (331249107,14), (331161797,14), (331074493,14), (330987196,14), (330899904,14), (330812619,14), (330725339,14), (330638066,14), (330550799,14), (330463538,14), (330376283,14),
    (330289035,14), (330201792,14), (330114556,14), (330027326,14), (329940102,14), (329852884,14), (329765672,14), (329678467,14), (329591267,14), (329504074,14), (329416887,14), (329329706,14), (329242531,14), (329155362,14), (329068199,14), (328981043,14),
    (328893893,14), (328806748,14), (328719610,14), (328632478,14), (328545352,14), (328458233,14), (328371119,14), (328284012,14), (328196910,14), (328109815,14), (328022726,14), (327935643,14), (327848566,14), (327761496,14), (327674431,14), (327587373,14),
    (327500320,14), (327413274,14), (327326234,14), (327239200,14), (327152173,14), (327065151,14), (326978135,14), (326891126,14), (326804122,14), (326717125,14), (326630134,14), (326543149,14), (326456170,14), (326369198,14), (326282231,14), (326195270,14),
    (326108316,14), (326021368,14), (325934426,14), (325847489,14), (325760560,14), (325673636,14), (325586718,14), (325499806,14), (325412901,14), (325326001,14), (325239108,14), (325152221,14), (325065340,14), (324978465,14), (324891596,14), (324804733,14),
    (324717876,14), (324631026,14), (324544181,14), (324457343,14), (324370511,14), (324283685,14), (324196865,14), (324110051,14), (324023243,14), (323936441,14), (323849645,14), (323762856,14), (323676072,14), (323589295,14), (323502523,14), (323415758,14),
    (323328999,14), (323242246,14), (323155499,14), (323068758,14), (322982024,14), (322895295,14), (322808572,14), (322721856,14), (322635146,14), (322548441,14), (322461743,14), (322375051,14), (322288365,14), (322201685,14), (322115011,14), (322028343,14),
    (321941682,14), (321855026,14), (321768376,14), (321681733,14), (321595096,14), (321508464,14), (321421839,14), (321335220,14), (321248607,14), (321162000,14), (321075399,14), (320988804,14), (320902215,14), (320815633,14), (320729056,14), (320642485,14),
    (320555921,14), (320469363,14), (320382810,14), (320296264,14), (320209724,14), (320123190,14), (320036662,14), (319950140,14), (319863624,14), (319777114,14), (319690610,14), (319604112,14), (319517621,14), (319431135,14), (319344656,14), (319258182,14),
    (319171715,14), (319085254,14), (318998798,14), (318912349,14), (318825906,14), (318739469,14), (318653038,14), (318566613,14), (318480194,14), (318393781,14), (318307374,14), (318220973,14), (318134579,14), (318048190,14), (317961808,14), (317875431,14),
    (317789061,14), (317702696,14), (317616338,14), (317529985,14), (317443639,14), (317357299,14), (317270965,14), (317184637,14), (317098314,14), (317011998,14), (316925688,14), (316839384,14), (316753087,14), (316666795,14), (316580509,14), (316494229,14),
    (316407955,14), (316321688,14), (316235426,14), (316149170,14), (316062921,14), (315976677,14), (315890440,14), (315804208,14), (315717983,14), (315631764,14), (315545550,14), (315459343,14), (315373142,14), (315286946,14), (315200757,14), (315114574,14),
    (315028397,14), (314942226,14), (314856061,14), (314769902,14), (314683748,14), (314597601,14), (314511461,14), (314425326,14), (314339197,14), (314253074,14), (314166957,14), (314080846,14), (313994741,14), (313908642,14), (313822550,14), (313736463,14),
    (313650382,14), (313564308,14), (313478239,14), (313392176,14), (313306120,14), (313220069,14), (313134024,14), (313047986,14), (312961953,14), (312875927,14), (312789906,14), (312703891,14), (312617883,14), (312531880,14), (312445884,14), (312359894,14),
    (312273909,14), (312187931,14), (312101958,14), (312015992,14), (311930031,14), (311844077,14), (311758128,14), (311672186,14), (311586250,14), (311500319,14), (311414395,14), (311328477,14), (311242564,14), (311156658,14), (311070757,14), (310984863,14),
    (310898975,14), (310813092,14), (310727216,14), (310641346,14), (310555481,14), (310469623,14), (310383771,14), (310297924,14), (310212084,14), (310126249,14), (310040421,14), (309954599,14), (309868782,14), (309782972,14), (309697167,14), (309611369,14),
    (309525577,14), (309439790,14), (309354010,14), (309268235,14), (309182467,14), (309096704,14), (309010948,14), (308925197,14), (308839453,14), (308753714,14), (308667982,14), (308582255,14), (308496535,14), (308410820,14), (308325111,14), (308239409,14),
    (308153712,14), (308068021,14), (307982337,14), (307896658,14), (307810985,14), (307725319,14), (307639658,14), (307554003,14), (307468354,14), (307382711,14), (307297075,14), (307211444,14), (307125819,14), (307040200,14), (306954587,14), (306868980,14),
    (306783379,14), (306697784,14), (306612195,14), (306526612,14), (306441034,14), (306355463,14), (306269898,14), (306184339,14), (306098785,14), (306013238,14), (305927697,14), (305842161,14), (305756632,14), (305671109,14), (305585591,14), (305500080,14),
    (305414574,14), (305329074,14), (305243581,14), (305158093,14), (305072611,14), (304987136,14), (304901666,14), (304816202,14), (304730744,14), (304645292,14), (304559846,14), (304474406,14), (304388972,14), (304303544,14), (304218122,14), (304132705,14),
    (304047295,14), (303961891,14), (303876492,14), (303791100,14), (303705714,14), (303620333,14), (303534958,14), (303449590,14), (303364227,14), (303278870,14), (303193520,14), (303108175,14), (303022836,14), (302937503,14), (302852176,14), (302766855,14),
    (302681540,14), (302596231,14), (302510927,14), (302425630,14), (302340339,14), (302255053,14), (302169774,14), (302084500,14), (301999233,14), (301913971,14), (301828715,14), (301743465,14), (301658221,14), (301572983,14), (301487751,14), (301402525,14),
    (301317305,14), (301232091,14), (301146883,14), (301061680,14), (300976484,14), (300891293,14), (300806109,14), (300720930,14), (300635758,14), (300550591,14), (300465430,14), (300380275,14), (300295126,14), (300209983,14), (300124846,14), (300039714,14),
    (299954589,14), (299869470,14), (299784356,14), (299699249,14), (299614147,14), (299529051,14), (299443961,14), (299358878,14), (299273800,14), (299188728,14), (299103661,14), (299018601,14), (298933547,14), (298848498,14), (298763456,14), (298678419,14),
    (298593389,14), (298508364,14), (298423345,14), (298338332,14), (298253325,14), (298168324,14), (298083329,14), (297998340,14), (297913356,14), (297828379,14), (297743407,14), (297658441,14), (297573482,14), (297488528,14), (297403580,14), (297318638,14),
    (297233702,14), (297148771,14), (297063847,14), (296978929,14), (296894016,14), (296809109,14), (296724209,14), (296639314,14), (296554425,14), (296469542,14), (296384665,14), (296299793,14), (296214928,14), (296130068,14), (296045215,14), (295960367,14),
    (295875525,14), (295790689,14), (295705859,14), (295621035,14), (295536217,14), (295451405,14), (295366598,14), (295281798,14), (295197003,14), (295112214,14), (295027431,14), (294942654,14), (294857883,14), (294773118,14), (294688358,14), (294603605,14),
    (294518857,14), (294434116,14), (294349380,14), (294264650,14), (294179926,14), (294095207,14), (294010495,14), (293925789,14), (293841088,14), (293756393,14), (293671705,14), (293587022,14), (293502345,14), (293417673,14), (293333008,14), (293248349,14),
    (293163695,14), (293079047,14), (292994405,14), (292909769,14), (292825139,14), (292740515,14), (292655897,14), (292571284,14), (292486678,14), (292402077,14), (292317482,14), (292232893,14), (292148310,14), (292063733,14), (291979161,14), (291894596,14),
    (291810036,14), (291725482,14), (291640934,14), (291556392,14), (291471856,14), (291387325,14), (291302801,14), (291218282,14), (291133769,14), (291049262,14), (290964761,14), (290880266,14), (290795777,14), (290711293,14), (290626815,14), (290542343,14),
    (290457878,14), (290373417,14), (290288963,14), (290204515,14), (290120072,14), (290035635,14), (289951205,14), (289866779,14), (289782360,14), (289697947,14), (289613540,14), (289529138,14), (289444742,14), (289360352,14), (289275968,14), (289191590,14),
    (289107217,14), (289022851,14), (288938490,14), (288854135,14), (288769786,14), (288685443,14), (288601106,14), (288516774,14), (288432448,14), (288348129,14), (288263815,14), (288179506,14), (288095204,14), (288010908,14), (287926617,14), (287842332,14),
    (287758053,14), (287673780,14), (287589512,14), (287505251,14), (287420995,14), (287336745,14), (287252501,14), (287168263,14), (287084031,14), (286999804,14), (286915584,14), (286831369,14), (286747160,14), (286662957,14), (286578759,14), (286494568,14),
    (286410382,14), (286326202,14), (286242028,14), (286157860,14), (286073697,14), (285989541,14), (285905390,14), (285821245,14), (285737106,14), (285652972,14), (285568845,14), (285484723,14), (285400607,14), (285316497,14), (285232393,14), (285148294,14),
    (285064202,14), (284980115,14), (284896034,14), (284811959,14), (284727889,14), (284643826,14), (284559768,14), (284475716,14), (284391670,14), (284307629,14), (284223595,14), (284139566,14), (284055543,14), (283971526,14), (283887515,14), (283803509,14),
    (283719510,14), (283635516,14), (283551528,14), (283467545,14), (283383569,14), (283299598,14), (283215633,14), (283131674,14), (283047721,14), (282963773,14), (282879832,14), (282795896,14), (282711966,14), (282628041,14), (282544123,14), (282460210,14),
    (282376303,14), (282292402,14), (282208507,14), (282124617,14), (282040734,14), (281956856,14), (281872984,14), (281789117,14), (281705257,14), (281621402,14), (281537553,14), (281453710,14), (281369872,14), (281286041,14), (281202215,14), (281118395,14),
    (281034581,14), (280950772,14), (280866969,14), (280783173,14), (280699381,14), (280615596,14), (280531817,14), (280448043,14), (280364275,14), (280280513,14), (280196756,14), (280113005,14), (280029261,14), (279945521,14), (279861788,14), (279778061,14),
    (279694339,14), (279610623,14), (279526913,14), (279443208,14), (279359509,14), (279275817,14), (279192129,14), (279108448,14), (279024772,14), (278941103,14), (278857439,14), (278773780,14), (278690128,14), (278606481,14), (278522840,14), (278439205,14),
    (278355575,14), (278271952,14), (278188334,14), (278104722,14), (278021115,14), (277937515,14), (277853920,14), (277770331,14), (277686747,14), (277603170,14), (277519598,14), (277436032,14), (277352472,14), (277268917,14), (277185368,14), (277101825,14),
    (277018288,14), (276934757,14), (276851231,14), (276767711,14), (276684197,14), (276600688,14), (276517185,14), (276433688,14), (276350197,14), (276266712,14), (276183232,14), (276099758,14), (276016290,14), (275932827,14), (275849371,14), (275765920,14),
    (275682474,14), (275599035,14), (275515601,14), (275432173,14), (275348751,14), (275265334,14), (275181924,14), (275098519,14), (275015119,14), (274931726,14), (274848338,14), (274764956,14), (274681580,14), (274598209,14), (274514844,14), (274431485,14),
    (274348132,14), (274264784,14), (274181442,14), (274098106,14), (274014776,14), (273931451,14), (273848132,14), (273764819,14), (273681511,14), (273598210,14), (273514914,14), (273431623,14), (273348339,14), (273265060,14), (273181787,14), (273098520,14),
    (273015258,14), (272932002,14), (272848752,14), (272765507,14), (272682269,14), (272599036,14), (272515808,14), (272432587,14), (272349371,14), (272266161,14), (272182957,14), (272099758,14), (272016565,14), (271933378,14), (271850196,14), (271767020,14),
    (271683850,14), (271600686,14), (271517527,14), (271434374,14), (271351227,14), (271268086,14), (271184950,14), (271101820,14), (271018696,14), (270935577,14), (270852464,14), (270769357,14), (270686256,14), (270603160,14), (270520070,14), (270436985,14),
    (270353907,14), (270270834,14), (270187767,14), (270104705,14), (270021649,14), (269938599,14), (269855555,14), (269772516,14), (269689483,14), (269606456,14), (269523434,14), (269440418,14), (269357408,14), (269274404,14), (269191405,14), (269108412,14),
    (269025425,14), (268942443,14), (268859467,14), (268776497,14), (268693532,14), (268610573,14), (268527620,14), (268444673,14), (268361731,14), (268278795,14), (268195864,14), (268112940,14), (268030021,14), (267947107,14), (267864200,14), (267781298,14),
    (267698401,14), (267615511,14), (267532626,14), (267449747,14), (267366873,14), (267284006,14), (267201143,14), (267118287,14), (267035436,14), (266952591,14), (266869752,14), (266786918,14), (266704090,14), (266621268,14), (266538451,14), (266455640,14),
    (266372835,14), (266290035,14), (266207241,14), (266124453,14), (266041671,14), (265958894,14), (265876123,14), (265793357,14), (265710597,14), (265627843,14), (265545095,14), (265462352,14), (265379615,14), (265296883,14), (265214157,14), (265131437,14),
    (265048723,14), (264966014,14), (264883311,14), (264800614,14), (264717922,14), (264635236,14), (264552555,14), (264469880,14), (264387211,14), (264304548,14), (264221890,14), (264139238,14), (264056592,14), (263973951,14), (263891316,14), (263808686,14),
    (263726063,14), (263643444,14), (263560832,14), (263478225,14), (263395624,14), (263313029,14), (263230439,14), (263147855,14), (263065276,14), (262982703,14), (262900136,14), (262817575,14), (262735019,14), (262652468,14), (262569924,14), (262487385,14),
    (262404852,14), (262322324,14), (262239802,14), (262157286,14), (262074775,14), (261992270,14), (261909771,14), (261827277,14), (261744789,14), (261662307,14), (261579830,14), (261497359,14), (261414893,14), (261332434,14), (261249979,14), (261167531,14),
    (261085088,14), (261002651,14), (260920219,14), (260837793,14), (260755373,14), (260672958,14), (260590549,14), (260508146,14), (260425748,14), (260343356,14), (260260970,14), (260178589,14), (260096214,14), (260013844,14), (259931480,14), (259849122,14),
    (259766769,14), (259684422,14), (259602081,14), (259519745,14), (259437415,14), (259355090,14), (259272771,14), (259190458,14), (259108151,14), (259025849,14), (258943552,14), (258861262,14), (258778977,14), (258696697,14), (258614423,14), (258532155,14),
    (258449892,14), (258367636,14), (258285384,14), (258203139,14), (258120898,14), (258038664,14), (257956435,14), (257874212,14), (257791994,14), (257709782,14), (257627576,14), (257545375,14), (257463180,14), (257380991,14), (257298807,14), (257216629,14),
    (257134456,14), (257052289,14), (256970127,14), (256887972,14), (256805821,14), (256723677,14), (256641538,14), (256559405,14), (256477277,14), (256395155,14), (256313038,14), (256230927,14), (256148822,14), (256066722,14), (255984628,14), (255902540,14),
    (255820457,14), (255738380,14), (255656308,14), (255574242,14), (255492182,14), (255410127,14), (255328077,14), (255246034,14), (255163996,14), (255081963,14), (254999937,14), (254917915,14), (254835900,14), (254753890,14), (254671885,14), (254589886,14),
    (254507893,14), (254425906,14), (254343924,14), (254261947,14), (254179976,14), (254098011,14), (254016051,14), (253934097,14), (253852149,14), (253770206,14), (253688269,14), (253606337,14), (253524411,14), (253442490,14), (253360576,14), (253278666,14),
    (253196762,14), (253114864,14), (253032972,14), (252951085,14), (252869203,14), (252787328,14), (252705457,14), (252623593,14), (252541734,14), (252459880,14), (252378032,14), (252296190,14), (252214353,14), (252132522,14), (252050697,14), (251968877,14),
    (251887062,14), (251805254,14), (251723450,14), (251641653,14), (251559861,14), (251478074,14), (251396293,14), (251314518,14), (251232748,14), (251150984,14), (251069225,14), (250987472,14), (250905725,14), (250823983,14), (250742246,14), (250660516,14),
    (250578790,14), (250497071,14), (250415357,14), (250333648,14), (250251945,14), (250170248,14), (250088556,14), (250006870,14), (249925189,14), (249843514,14), (249761845,14), (249680181,14), (249598522,14), (249516870,14), (249435222,14), (249353581,14),
    (249271944,14), (249190314,14), (249108689,14), (249027069,14), (248945455,14), (248863847,14), (248782244,14), (248700647,14), (248619055,14), (248537469,14), (248455889,14), (248374314,14), (248292744,14), (248211180,14), (248129622,14), (248048069,14),
    (247966522,14), (247884980,14), (247803444,14), (247721914,14), (247640388,14), (247558869,14), (247477355,14), (247395847,14), (247314344,14), (247232847,14), (247151355,14), (247069869,14), (246988388,14), (246906913,14), (246825443,14), (246743979,14),
    (246662521,14), (246581068,14), (246499620,14), (246418179,14), (246336742,14), (246255311,14), (246173886,14), (246092467,14), (246011052,14), (245929644,14), (245848241,14), (245766843,14), (245685451,14), (245604065,14), (245522684,14), (245441308,14),
    (245359939,14), (245278574,14), (245197215,14), (245115862,14), (245034514,14), (244953172,14), (244871836,14), (244790504,14), (244709179,14), (244627859,14), (244546544,14), (244465235,14), (244383932,14), (244302634,14), (244221341,14), (244140054,14),
    (244058773,14), (243977497,14), (243896227,14), (243814962,14), (243733703,14), (243652449,14), (243571201,14), (243489958,14), (243408721,14), (243327489,14), (243246263,14), (243165042,14), (243083827,14), (243002617,14), (242921413,14), (242840215,14),
    (242759022,14), (242677834,14), (242596652,14), (242515475,14), (242434304,14), (242353139,14), (242271979,14), (242190825,14), (242109676,14), (242028532,14), (241947394,14), (241866262,14), (241785135,14), (241704013,14), (241622898,14), (241541787,14),
    (241460682,14), (241379583,14), (241298489,14), (241217401,14), (241136318,14), (241055240,14), (240974169,14), (240893102,14), (240812041,14), (240730986,14), (240649936,14), (240568892,14), (240487853,14), (240406820,14), (240325792,14), (240244770,14),
    (240163753,14), (240082741,14), (240001735,14), (239920735,14), (239839740,14), (239758751,14), (239677767,14), (239596789,14), (239515816,14), (239434848,14), (239353887,14), (239272930,14), (239191979,14), (239111034,14), (239030094,14), (238949159,14),
    (238868230,14), (238787307,14), (238706389,14), (238625477,14), (238544570,14), (238463668,14), (238382772,14), (238301881,14), (238220996,14), (238140117,14), (238059243,14), (237978374,14), (237897511,14), (237816653,14), (237735801,14), (237654955,14),
    (237574113,14), (237493278,14), (237412447,14), (237331623,14), (237250803,14), (237169990,14), (237089181,14), (237008378,14), (236927581,14), (236846789,14), (236766003,14), (236685222,14), (236604446,14), (236523676,14), (236442912,14), (236362153,14),
    (236281399,14), (236200651,14), (236119908,14), (236039171,14), (235958440,14), (235877713,14), (235796993,14), (235716277,14), (235635567,14), (235554863,14), (235474164,14), (235393471,14), (235312783,14), (235232100,14), (235151423,14), (235070752,14),
    (234990085,14), (234909425,14), (234828770,14), (234748120,14), (234667476,14), (234586837,14), (234506203,14), (234425576,14), (234344953,14), (234264336,14), (234183725,14), (234103119,14), (234022518,14), (233941923,14), (233861333,14), (233780749,14),
    (233700170,14), (233619597,14), (233539029,14), (233458466,14), (233377909,14), (233297358,14), (233216812,14), (233136271,14), (233055736,14), (232975206,14), (232894682,14), (232814163,14), (232733650,14), (232653142,14), (232572639,14), (232492142,14),
    (232411651,14), (232331165,14), (232250684,14), (232170209,14), (232089739,14), (232009274,14), (231928815,14), (231848362,14), (231767914,14), (231687471,14), (231607034,14), (231526602,14), (231446176,14), (231365755,14), (231285340,14), (231204930,14),
    (231124525,14), (231044126,14), (230963732,14), (230883344,14), (230802961,14), (230722584,14), (230642212,14), (230561845,14), (230481484,14), (230401129,14), (230320778,14), (230240434,14), (230160094,14), (230079760,14), (229999432,14), (229919109,14),
    (229838791,14), (229758479,14), (229678172,14), (229597871,14), (229517575,14), (229437284,14), (229356999,14), (229276719,14), (229196445,14), (229116176,14), (229035913,14), (228955655,14), (228875402,14), (228795155,14), (228714913,14), (228634677,14),
    (228554446,14), (228474221,14), (228394000,14), (228313786,14), (228233577,14), (228153373,14), (228073174,14), (227992981,14), (227912794,14), (227832612,14), (227752435,14), (227672264,14), (227592098,14), (227511937,14), (227431782,14), (227351632,14),
    (227271488,14), (227191349,14), (227111216,14), (227031088,14), (226950965,14), (226870848,14), (226790736,14), (226710630,14), (226630529,14), (226550433,14), (226470343,14), (226390258,14), (226310178,14), (226230104,14), (226150036,14), (226069973,14),
    (225989915,14), (225909862,14), (225829815,14), (225749774,14), (225669738,14), (225589707,14), (225509681,14), (225429661,14), (225349647,14), (225269638,14), (225189634,14), (225109635,14), (225029642,14), (224949655,14), (224869672,14), (224789696,14),
    (224709724,14), (224629758,14), (224549797,14), (224469842,14), (224389892,14), (224309948,14), (224230009,14), (224150075,14), (224070147,14), (223990224,14), (223910306,14), (223830394,14), (223750487,14), (223670586,14), (223590690,14), (223510799,14),
    (223430914,14), (223351034,14), (223271159,14), (223191290,14), (223111427,14), (223031568,14), (222951715,14), (222871868,14), (222792025,14), (222712189,14), (222632357,14), (222552531,14), (222472710,14), (222392895,14), (222313085,14), (222233281,14),
    (222153481,14), (222073688,14), (221993899,14), (221914116,14), (221834338,14), (221754566,14), (221674799,14), (221595037,14), (221515281,14), (221435530,14), (221355785,14), (221276045,14), (221196310,14), (221116581,14), (221036857,14), (220957138,14),
    (220877425,14), (220797717,14), (220718014,14), (220638317,14), (220558625,14), (220478939,14), (220399258,14), (220319582,14), (220239912,14), (220160247,14), (220080587,14), (220000933,14), (219921284,14), (219841640,14), (219762002,14), (219682369,14),
    (219602742,14), (219523120,14), (219443503,14), (219363891,14), (219284285,14), (219204685,14), (219125089,14), (219045499,14), (218965915,14), (218886335,14), (218806761,14), (218727193,14), (218647629,14), (218568072,14), (218488519,14), (218408972,14),
    (218329430,14), (218249894,14), (218170362,14), (218090837,14), (218011316,14), (217931801,14), (217852291,14), (217772787,14), (217693288,14), (217613794,14), (217534306,14), (217454823,14), (217375345,14), (217295873,14), (217216406,14), (217136944,14),
    (217057488,14), (216978037,14), (216898591,14), (216819151,14), (216739716,14), (216660286,14), (216580862,14), (216501443,14), (216422029,14), (216342621,14), (216263218,14), (216183820,14), (216104428,14), (216025041,14), (215945659,14), (215866283,14),
    (215786912,14), (215707546,14), (215628186,14), (215548831,14), (215469481,14), (215390137,14), (215310798,14), (215231464,14), (215152136,14), (215072813,14), (214993495,14), (214914183,14), (214834876,14), (214755574,14), (214676278,14), (214596987,14),
    (214517701,14), (214438421,14), (214359146,14), (214279876,14), (214200611,14), (214121352,14), (214042098,14), (213962850,14), (213883607,14), (213804369,14), (213725136,14), (213645909,14), (213566687,14), (213487471,14), (213408259,14), (213329053,14),
    (213249853,14), (213170657,14), (213091467,14), (213012283,14), (212933103,14), (212853929,14), (212774761,14), (212695597,14), (212616439,14), (212537286,14), (212458139,14), (212378996,14), (212299859,14), (212220728,14), (212141602,14), (212062481,14),
    (211983365,14), (211904255,14), (211825149,14), (211746050,14), (211666955,14), (211587866,14), (211508782,14), (211429704,14), (211350630,14), (211271562,14), (211192500,14), (211113442,14), (211034390,14), (210955344,14), (210876302,14), (210797266,14),
    (210718235,14), (210639210,14), (210560189,14), (210481174,14), (210402165,14), (210323160,14), (210244161,14), (210165167,14), (210086179,14), (210007196,14), (209928218,14), (209849245,14), (209770278,14), (209691316,14), (209612359,14), (209533408,14),
    (209454461,14), (209375520,14), (209296585,14), (209217655,14), (209138730,14), (209059810,14), (208980895,14), (208901986,14), (208823082,14), (208744184,14), (208665290,14), (208586402,14), (208507520,14), (208428642,14), (208349770,14), (208270903,14),
    (208192041,14), (208113185,14), (208034334,14), (207955488,14), (207876648,14), (207797812,14), (207718982,14), (207640158,14), (207561338,14), (207482524,14), (207403715,14), (207324912,14), (207246113,14), (207167320,14), (207088533,14), (207009750,14),
    (206930973,14), (206852201,14), (206773434,14), (206694673,14), (206615917,14), (206537166,14), (206458420,14), (206379680,14), (206300945,14), (206222215,14), (206143491,14), (206064771,14), (205986057,14), (205907349,14), (205828645,14), (205749947,14),
    (205671254,14), (205592566,14), (205513884,14), (205435207,14), (205356535,14), (205277868,14), (205199207,14), (205120551,14), (205041900,14), (204963254,14), (204884614,14), (204805979,14), (204727349,14), (204648725,14), (204570105,14), (204491491,14),
    (204412883,14), (204334279,14), (204255681,14), (204177088,14), (204098500,14), (204019917,14), (203941340,14), (203862768,14), (203784201,14), (203705640,14), (203627083,14), (203548532,14), (203469987,14), (203391446,14), (203312911,14), (203234381,14),
    (203155856,14), (203077336,14), (202998822,14), (202920313,14), (202841809,14), (202763311,14), (202684817,14), (202606329,14), (202527847,14), (202449369,14), (202370897,14), (202292429,14), (202213968,14), (202135511,14), (202057060,14), (201978613,14),
    (201900173,14), (201821737,14), (201743306,14), (201664881,14), (201586461,14), (201508047,14), (201429637,14), (201351233,14), (201272834,14), (201194440,14), (201116051,14), (201037668,14), (200959290,14), (200880917,14), (200802549,14), (200724187,14),
    (200645830,14), (200567478,14), (200489131,14), (200410790,14), (200332453,14), (200254122,14), (200175797,14), (200097476,14), (200019161,14), (199940851,14), (199862546,14), (199784246,14), (199705951,14), (199627662,14), (199549378,14), (199471099,14),
    (199392826,14), (199314558,14), (199236294,14), (199158036,14), (199079784,14), (199001536,14), (198923294,14), (198845057,14), (198766825,14), (198688599,14), (198610377,14), (198532161,14), (198453950,14), (198375744,14), (198297544,14), (198219349,14),
    (198141158,14), (198062974,14), (197984794,14), (197906619,14), (197828450,14), (197750286,14), (197672127,14), (197593974,14), (197515825,14), (197437682,14), (197359544,14), (197281411,14), (197203284,14), (197125161,14), (197047044,14), (196968932,14),
    (196890825,14), (196812724,14), (196734627,14), (196656536,14), (196578450,14), (196500370,14), (196422294,14), (196344224,14), (196266159,14), (196188099,14), (196110044,14), (196031994,14), (195953950,14), (195875911,14), (195797877,14), (195719848,14),
    (195641825,14), (195563806,14), (195485793,14), (195407785,14), (195329782,14), (195251785,14), (195173792,14), (195095805,14), (195017823,14), (194939846,14), (194861875,14), (194783908,14), (194705947,14), (194627991,14), (194550040,14), (194472094,14),
    (194394154,14), (194316219,14), (194238289,14), (194160364,14), (194082444,14), (194004529,14), (193926620,14), (193848716,14), (193770817,14), (193692923,14), (193615034,14), (193537151,14), (193459273,14), (193381399,14), (193303532,14), (193225669,14),
    (193147811,14), (193069959,14), (192992112,14), (192914270,14), (192836433,14), (192758601,14), (192680775,14), (192602953,14), (192525137,14), (192447326,14), (192369521,14), (192291720,14), (192213925,14), (192136134,14), (192058349,14), (191980569,14),
    (191902795,14), (191825025,14), (191747261,14), (191669501,14), (191591747,14), (191513998,14), (191436255,14), (191358516,14), (191280783,14), (191203055,14), (191125331,14), (191047614,14), (190969901,14), (190892193,14), (190814491,14), (190736794,14),
    (190659102,14), (190581415,14), (190503733,14), (190426056,14), (190348385,14), (190270719,14), (190193058,14), (190115402,14), (190037751,14), (189960105,14), (189882465,14), (189804830,14), (189727199,14), (189649574,14), (189571955,14), (189494340,14),
    (189416730,14), (189339126,14), (189261527,14), (189183933,14), (189106344,14), (189028760,14), (188951181,14), (188873608,14), (188796040,14), (188718477,14), (188640919,14), (188563366,14), (188485818,14), (188408275,14), (188330738,14), (188253206,14),
    (188175679,14), (188098157,14), (188020640,14), (187943128,14), (187865622,14), (187788120,14), (187710624,14), (187633133,14), (187555647,14), (187478166,14), (187400690,14), (187323220,14), (187245755,14), (187168294,14), (187090839,14), (187013389,14),
    (186935944,14), (186858505,14), (186781070,14), (186703641,14), (186626216,14), (186548797,14), (186471383,14), (186393974,14), (186316571,14), (186239172,14), (186161779,14), (186084390,14), (186007007,14), (185929629,14), (185852256,14), (185774888,14),
    (185697525,14), (185620168,14), (185542816,14), (185465468,14), (185388126,14), (185310789,14), (185233457,14), (185156130,14), (185078809,14), (185001492,14), (184924181,14), (184846874,14), (184769573,14), (184692277,14), (184614986,14), (184537701,14),
    (184460420,14), (184383144,14), (184305874,14), (184228609,14), (184151348,14), (184074093,14), (183996843,14), (183919599,14), (183842359,14), (183765124,14), (183687895,14), (183610671,14), (183533451,14), (183456237,14), (183379028,14), (183301824,14),
    (183224625,14), (183147432,14), (183070243,14), (182993060,14), (182915881,14), (182838708,14), (182761540,14), (182684377,14), (182607219,14), (182530067,14), (182452919,14), (182375776,14), (182298639,14), (182221507,14), (182144379,14), (182067257,14),
    (181990140,14), (181913028,14), (181835921,14), (181758820,14), (181681723,14), (181604632,14), (181527545,14), (181450464,14), (181373388,14), (181296317,14), (181219251,14), (181142190,14), (181065134,14), (180988083,14), (180911038,14), (180833997,14),
    (180756962,14), (180679932,14), (180602906,14), (180525886,14), (180448871,14), (180371861,14), (180294857,14), (180217857,14), (180140862,14), (180063873,14), (179986888,14), (179909909,14), (179832935,14), (179755965,14), (179679001,14), (179602042,14),
    (179525089,14), (179448140,14), (179371196,14), (179294257,14), (179217324,14), (179140395,14), (179063472,14), (178986554,14), (178909641,14), (178832732,14), (178755829,14), (178678932,14), (178602039,14), (178525151,14), (178448268,14), (178371391,14),
    (178294518,14), (178217651,14), (178140788,14), (178063931,14), (177987079,14), (177910232,14), (177833390,14), (177756553,14), (177679721,14), (177602894,14), (177526072,14), (177449256,14), (177372444,14), (177295637,14), (177218836,14), (177142040,14),
    (177065248,14), (176988462,14), (176911681,14), (176834905,14), (176758134,14), (176681368,14), (176604607,14), (176527851,14), (176451101,14), (176374355,14), (176297615,14), (176220879,14), (176144149,14), (176067423,14), (175990703,14), (175913988,14),
    (175837278,14), (175760572,14), (175683872,14), (175607177,14), (175530488,14), (175453803,14), (175377123,14), (175300448,14), (175223778,14), (175147114,14), (175070454,14), (174993800,14), (174917150,14), (174840506,14), (174763867,14), (174687233,14),
    (174610603,14), (174533979,14), (174457360,14), (174380746,14), (174304137,14), (174227533,14), (174150934,14), (174074341,14), (173997752,14), (173921168,14), (173844590,14), (173768016,14), (173691447,14), (173614884,14), (173538326,14), (173461772,14),
    (173385224,14), (173308681,14), (173232142,14), (173155609,14), (173079081,14), (173002558,14), (172926040,14), (172849527,14), (172773019,14), (172696516,14), (172620018,14), (172543525,14), (172467038,14), (172390555,14), (172314077,14), (172237604,14),
    (172161137,14), (172084674,14), (172008217,14), (171931764,14), (171855317,14), (171778874,14), (171702437,14), (171626005,14), (171549577,14), (171473155,14), (171396738,14), (171320326,14), (171243919,14), (171167517,14), (171091119,14), (171014727,14),
    (170938340,14), (170861958,14), (170785582,14), (170709210,14), (170632843,14), (170556481,14), (170480124,14), (170403772,14), (170327426,14), (170251084,14), (170174747,14), (170098415,14), (170022089,14), (169945767,14), (169869451,14), (169793139,14),
    (169716833,14), (169640531,14), (169564235,14), (169487943,14), (169411657,14), (169335375,14), (169259099,14), (169182827,14), (169106561,14), (169030300,14), (168954044,14), (168877792,14), (168801546,14), (168725305,14), (168649069,14), (168572837,14),
    (168496611,14), (168420390,14), (168344174,14), (168267963,14), (168191757,14), (168115555,14), (168039359,14), (167963168,14), (167886982,14), (167810801,14), (167734625,14), (167658454,14), (167582288,14), (167506127,14), (167429971,14), (167353820,14),
    (167277674,14), (167201533,14), (167125397,14), (167049266,14), (166973140,14), (166897019,14), (166820903,14), (166744793,14), (166668687,14), (166592586,14), (166516490,14), (166440399,14), (166364313,14), (166288232,14), (166212156,14), (166136085,14),
    (166060020,14), (165983959,14), (165907903,14), (165831852,14), (165755806,14), (165679765,14), (165603729,14), (165527698,14), (165451673,14), (165375652,14), (165299636,14), (165223625,14), (165147619,14), (165071618,14), (164995622,14), (164919631,14),
    (164843645,14), (164767664,14), (164691689,14), (164615718,14), (164539752,14), (164463791,14), (164387835,14), (164311884,14), (164235938,14), (164159997,14), (164084061,14), (164008130,14), (163932204,14), (163856283,14), (163780367,14), (163704456,14),
    (163628550,14), (163552649,14), (163476752,14), (163400861,14), (163324975,14), (163249094,14), (163173218,14), (163097347,14), (163021480,14), (162945619,14), (162869763,14), (162793912,14), (162718065,14), (162642224,14), (162566388,14), (162490557,14),
    (162414730,14), (162338909,14), (162263092,14), (162187281,14), (162111475,14), (162035673,14), (161959877,14), (161884085,14), (161808298,14), (161732517,14), (161656740,14), (161580969,14), (161505202,14), (161429440,14), (161353684,14), (161277932,14),
    (161202185,14), (161126443,14), (161050706,14), (160974975,14), (160899248,14), (160823526,14), (160747809,14), (160672097,14), (160596390,14), (160520688,14), (160444991,14), (160369299,14), (160293611,14), (160217929,14), (160142252,14), (160066580,14),
    (159990912,14), (159915250,14), (159839593,14), (159763940,14), (159688293,14), (159612650,14), (159537013,14), (159461380,14), (159385753,14), (159310130,14), (159234512,14), (159158899,14), (159083292,14), (159007689,14), (158932091,14), (158856498,14),
    (158780910,14), (158705327,14), (158629749,14), (158554176,14), (158478608,14), (158403044,14), (158327486,14), (158251933,14), (158176385,14), (158100841,14), (158025303,14), (157949769,14), (157874241,14), (157798717,14), (157723198,14), (157647685,14),
    (157572176,14), (157496672,14), (157421173,14), (157345679,14), (157270190,14), (157194706,14), (157119227,14), (157043753,14), (156968284,14), (156892820,14), (156817360,14), (156741906,14), (156666457,14), (156591012,14), (156515573,14), (156440138,14),
    (156364708,14), (156289284,14), (156213864,14), (156138449,14), (156063039,14), (155987634,14), (155912234,14), (155836839,14), (155761449,14), (155686063,14), (155610683,14), (155535308,14), (155459937,14), (155384572,14), (155309211,14), (155233856,14),
    (155158505,14), (155083159,14), (155007818,14), (154932482,14), (154857151,14), (154781825,14), (154706504,14), (154631188,14), (154555877,14), (154480570,14), (154405269,14), (154329973,14), (154254681,14), (154179394,14), (154104113,14), (154028836,14),
    (153953564,14), (153878297,14), (153803035,14), (153727778,14), (153652526,14), (153577278,14), (153502036,14), (153426799,14), (153351566,14), (153276339,14), (153201116,14), (153125898,14), (153050685,14), (152975478,14), (152900275,14), (152825077,14),
    (152749883,14), (152674695,14), (152599512,14), (152524333,14), (152449160,14), (152373991,14), (152298828,14), (152223669,14), (152148515,14), (152073366,14), (151998222,14), (151923083,14), (151847949,14), (151772820,14), (151697695,14), (151622576,14),
    (151547461,14), (151472352,14), (151397247,14), (151322147,14), (151247052,14), (151171962,14), (151096877,14), (151021797,14), (150946722,14), (150871651,14), (150796586,14), (150721525,14), (150646469,14), (150571419,14), (150496373,14), (150421332,14),
    (150346296,14), (150271264,14), (150196238,14), (150121217,14), (150046200,14), (149971189,14), (149896182,14), (149821180,14), (149746183,14), (149671191,14), (149596204,14), (149521222,14), (149446245,14), (149371272,14), (149296305,14), (149221342,14),
    (149146384,14), (149071432,14), (148996484,14), (148921541,14), (148846602,14), (148771669,14), (148696741,14), (148621817,14), (148546899,14), (148471985,14), (148397076,14), (148322172,14), (148247273,14), (148172379,14), (148097490,14), (148022605,14),
    (147947726,14), (147872851,14), (147797981,14), (147723117,14), (147648257,14), (147573401,14), (147498551,14), (147423706,14), (147348865,14), (147274030,14), (147199199,14), (147124373,14), (147049553,14), (146974736,14), (146899925,14), (146825119,14),
    (146750318,14), (146675521,14), (146600729,14), (146525943,14), (146451161,14), (146376384,14), (146301612,14), (146226844,14), (146152082,14), (146077324,14), (146002572,14), (145927824,14), (145853081,14), (145778343,14), (145703610,14), (145628882,14),
    (145554158,14), (145479440,14), (145404726,14), (145330017,14), (145255313,14), (145180614,14), (145105920,14), (145031230,14), (144956546,14), (144881866,14), (144807192,14), (144732522,14), (144657857,14), (144583197,14), (144508541,14), (144433891,14),
    (144359245,14), (144284605,14), (144209969,14), (144135338,14), (144060712,14), (143986090,14), (143911474,14), (143836862,14), (143762256,14), (143687654,14), (143613057,14), (143538465,14), (143463877,14), (143389295,14), (143314718,14), (143240145,14),
    (143165577,14), (143091014,14), (143016456,14), (142941903,14), (142867354,14), (142792811,14), (142718272,14), (142643738,14), (142569209,14), (142494685,14), (142420166,14), (142345651,14), (142271142,14), (142196637,14), (142122137,14), (142047642,14),
    (141973152,14), (141898666,14), (141824186,14), (141749710,14), (141675239,14), (141600773,14), (141526312,14), (141451856,14), (141377404,14), (141302958,14), (141228516,14), (141154079,14), (141079647,14), (141005220,14), (140930797,14), (140856380,14),
    (140781967,14), (140707559,14), (140633156,14), (140558758,14), (140484365,14), (140409976,14), (140335592,14), (140261213,14), (140186839,14), (140112470,14), (140038106,14), (139963746,14), (139889392,14), (139815042,14), (139740697,14), (139666357,14),
    (139592021,14), (139517691,14), (139443365,14), (139369044,14), (139294728,14), (139220417,14), (139146111,14), (139071809,14), (138997512,14), (138923221,14), (138848933,14), (138774651,14), (138700374,14), (138626101,14), (138551834,14), (138477571,14),
    (138403313,14), (138329059,14), (138254811,14), (138180567,14), (138106328,14), (138032094,14), (137957865,14), (137883641,14), (137809421,14), (137735207,14), (137660997,14), (137586792,14), (137512592,14), (137438396,14), (137364206,14), (137290020,14),
    (137215839,14), (137141663,14), (137067491,14), (136993325,14), (136919163,14), (136845006,14), (136770854,14), (136696707,14), (136622564,14), (136548427,14), (136474294,14), (136400166,14), (136326043,14), (136251924,14), (136177811,14), (136103702,14),
    (136029598,14), (135955499,14), (135881405,14), (135807315,14), (135733230,14), (135659151,14), (135585075,14), (135511005,14), (135436940,14), (135362879,14), (135288823,14), (135214772,14), (135140726,14), (135066684,14), (134992648,14), (134918616,14),
    (134844589,14), (134770566,14), (134696549,14), (134622536,14), (134548528,14), (134474525,14), (134400527,14), (134326534,14), (134252545,14), (134178561,14), (134104582,14), (134030608,14), (133956638,14), (133882674,14), (133808714,14), (133734759,14),
    (133660808,14), (133586863,14), (133512922,14), (133438986,14), (133365055,14), (133291129,14), (133217207,14), (133143291,14), (133069379,14), (132995472,14), (132921569,14), (132847672,14), (132773779,14), (132699891,14), (132626008,14), (132552129,14),
    (132478256,14), (132404387,14), (132330523,14), (132256663,14), (132182809,14), (132108959,14), (132035114,14), (131961274,14), (131887439,14), (131813608,14), (131739782,14), (131665961,14), (131592145,14), (131518334,14), (131444527,14), (131370725,14),
    (131296928,14), (131223136,14), (131149348,14), (131075566,14), (131001788,14), (130928014,14), (130854246,14), (130780482,14), (130706723,14), (130632969,14), (130559220,14), (130485475,14), (130411736,14), (130338001,14), (130264270,14), (130190545,14),
    (130116824,14), (130043108,14), (129969397,14), (129895691,14), (129821989,14), (129748292,14), (129674600,14), (129600913,14), (129527231,14), (129453553,14), (129379880,14), (129306212,14), (129232548,14), (129158890,14), (129085236,14), (129011586,14),
    (128937942,14), (128864302,14), (128790668,14), (128717038,14), (128643412,14), (128569792,14), (128496176,14), (128422565,14), (128348959,14), (128275357,14), (128201760,14), (128128168,14), (128054581,14), (127980999,14), (127907421,14), (127833848,14),
    (127760280,14), (127686716,14), (127613157,14), (127539604,14), (127466054,14), (127392510,14), (127318970,14), (127245435,14), (127171905,14), (127098380,14), (127024859,14), (126951343,14), (126877832,14), (126804326,14), (126730824,14), (126657327,14),
    (126583835,14), (126510348,14), (126436865,14), (126363387,14), (126289914,14), (126216445,14), (126142982,14), (126069523,14), (125996069,14), (125922619,14), (125849175,14), (125775735,14), (125702300,14), (125628869,14), (125555443,14), (125482023,14),
    (125408606,14), (125335195,14), (125261788,14), (125188386,14), (125114989,14), (125041596,14), (124968209,14), (124894826,14), (124821447,14), (124748074,14), (124674705,14), (124601341,14), (124527982,14), (124454627,14), (124381277,14), (124307932,14),
    (124234592,14), (124161256,14), (124087925,14), (124014599,14), (123941278,14), (123867961,14), (123794649,14), (123721342,14), (123648039,14), (123574741,14), (123501448,14), (123428160,14), (123354876,14), (123281598,14), (123208323,14), (123135054,14),
    (123061789,14), (122988529,14), (122915274,14), (122842024,14), (122768778,14), (122695537,14), (122622301,14), (122549069,14), (122475842,14), (122402620,14), (122329403,14), (122256190,14), (122182982,14), (122109779,14), (122036580,14), (121963386,14),
    (121890197,14), (121817013,14), (121743833,14), (121670658,14), (121597488,14), (121524323,14), (121451162,14), (121378006,14), (121304854,14), (121231708,14), (121158566,14), (121085429,14), (121012296,14), (120939169,14), (120866046,14), (120792927,14),
    (120719814,14), (120646705,14), (120573601,14), (120500501,14), (120427406,14), (120354316,14), (120281231,14), (120208150,14), (120135074,14), (120062003,14), (119988937,14), (119915875,14), (119842818,14), (119769765,14), (119696718,14), (119623675,14),
    (119550637,14), (119477603,14), (119404574,14), (119331550,14), (119258531,14), (119185516,14), (119112506,14), (119039501,14), (118966500,14), (118893504,14), (118820513,14), (118747526,14), (118674544,14), (118601567,14), (118528595,14), (118455627,14),
    (118382664,14), (118309706,14), (118236752,14), (118163803,14), (118090859,14), (118017920,14), (117944985,14), (117872055,14), (117799129,14), (117726209,14), (117653292,14), (117580381,14), (117507474,14), (117434573,14), (117361675,14), (117288783,14),
    (117215895,14), (117143012,14), (117070133,14), (116997259,14), (116924390,14), (116851526,14), (116778666,14), (116705811,14), (116632961,14), (116560115,14), (116487274,14), (116414438,14), (116341606,14), (116268779,14), (116195957,14), (116123139,14),
    (116050326,14), (115977518,14), (115904715,14), (115831916,14), (115759122,14), (115686332,14), (115613547,14), (115540767,14), (115467992,14), (115395221,14), (115322455,14), (115249694,14), (115176937,14), (115104185,14), (115031438,14), (114958695,14),
    (114885957,14), (114813224,14), (114740495,14), (114667771,14), (114595052,14), (114522337,14), (114449627,14), (114376922,14), (114304221,14), (114231526,14), (114158834,14), (114086148,14), (114013466,14), (113940789,14), (113868116,14), (113795448,14),
    (113722785,14), (113650126,14), (113577473,14), (113504823,14), (113432179,14), (113359539,14), (113286904,14), (113214273,14), (113141647,14), (113069026,14), (112996410,14), (112923798,14), (112851191,14), (112778588,14), (112705990,14), (112633397,14),
    (112560808,14), (112488224,14), (112415645,14), (112343071,14), (112270501,14), (112197936,14), (112125375,14), (112052819,14), (111980268,14), (111907721,14), (111835179,14), (111762642,14), (111690109,14), (111617581,14), (111545058,14), (111472539,14),
    (111400025,14), (111327516,14), (111255011,14), (111182511,14), (111110016,14), (111037525,14), (110965039,14), (110892558,14), (110820081,14), (110747609,14), (110675141,14), (110602679,14), (110530220,14), (110457767,14), (110385318,14), (110312874,14),
    (110240434,14), (110167999,14), (110095569,14), (110023143,14), (109950722,14), (109878306,14), (109805894,14), (109733487,14), (109661085,14), (109588687,14), (109516294,14), (109443906,14), (109371522,14), (109299143,14), (109226768,14), (109154398,14),
    (109082033,14), (109009672,14), (108937316,14), (108864965,14), (108792618,14), (108720276,14), (108647939,14), (108575606,14), (108503278,14), (108430954,14), (108358636,14), (108286321,14), (108214012,14), (108141707,14), (108069406,14), (107997111,14),
    (107924820,14), (107852533,14), (107780252,14), (107707974,14), (107635702,14), (107563434,14), (107491171,14), (107418912,14), (107346658,14), (107274409,14), (107202164,14), (107129924,14), (107057688,14), (106985458,14), (106913231,14), (106841010,14),
    (106768793,14), (106696581,14), (106624373,14), (106552170,14), (106479971,14), (106407777,14), (106335588,14), (106263404,14), (106191224,14), (106119048,14), (106046878,14), (105974712,14), (105902550,14), (105830393,14), (105758241,14), (105686093,14),
    (105613950,14), (105541812,14), (105469678,14), (105397549,14), (105325425,14), (105253305,14), (105181189,14), (105109079,14), (105036973,14), (104964871,14), (104892775,14), (104820682,14), (104748595,14), (104676512,14), (104604433,14), (104532360,14),
    (104460291,14), (104388226,14), (104316166,14), (104244111,14), (104172060,14), (104100014,14), (104027973,14), (103955936,14), (103883904,14), (103811876,14), (103739853,14), (103667835,14), (103595821,14), (103523812,14), (103451807,14), (103379807,14),
    (103307812,14), (103235821,14), (103163835,14), (103091853,14), (103019876,14), (102947904,14), (102875936,14), (102803973,14), (102732014,14), (102660060,14), (102588111,14), (102516166,14), (102444226,14), (102372291,14), (102300360,14), (102228433,14),
    (102156512,14), (102084594,14), (102012682,14), (101940774,14), (101868871,14), (101796972,14), (101725078,14), (101653188,14), (101581303,14), (101509423,14), (101437547,14), (101365676,14), (101293809,14), (101221947,14), (101150090,14), (101078237,14),
    (101006389,14), (100934545,14), (100862706,14), (100790872,14), (100719042,14), (100647217,14), (100575396,14), (100503580,14), (100431768,14), (100359961,14), (100288159,14), (100216361,14), (100144568,14), (100072780,14), (100000996,14), (99929216,14),
    (99857441,14), (99785671,14), (99713906,14), (99642145,14), (99570388,14), (99498636,14), (99426889,14), (99355146,14), (99283408,14), (99211674,14), (99139945,14), (99068221,14), (98996501,14), (98924786,14), (98853075,14), (98781369,14),
    (98709668,14), (98637971,14), (98566278,14), (98494591,14), (98422907,14), (98351229,14), (98279555,14), (98207885,14), (98136220,14), (98064560,14), (97992904,14), (97921253,14), (97849606,14), (97777964,14), (97706327,14), (97634694,14),
    (97563066,14), (97491442,14), (97419823,14), (97348208,14), (97276598,14), (97204993,14), (97133392,14), (97061795,14), (96990204,14), (96918616,14), (96847034,14), (96775456,14), (96703882,14), (96632313,14), (96560749,14), (96489189,14),
    (96417634,14), (96346083,14), (96274537,14), (96202995,14), (96131458,14), (96059926,14), (95988398,14), (95916875,14), (95845356,14), (95773842,14), (95702332,14), (95630827,14), (95559326,14), (95487830,14), (95416339,14), (95344852,14),
    (95273370,14), (95201892,14), (95130419,14), (95058950,14), (94987486,14), (94916027,14), (94844572,14), (94773121,14), (94701676,14), (94630234,14), (94558797,14), (94487365,14), (94415938,14), (94344515,14), (94273096,14), (94201682,14),
    (94130273,14), (94058868,14), (93987467,14), (93916071,14), (93844680,14), (93773294,14), (93701911,14), (93630534,14), (93559161,14), (93487792,14), (93416428,14), (93345069,14), (93273714,14), (93202364,14), (93131018,14), (93059677,14),
    (92988340,14), (92917008,14), (92845680,14), (92774357,14), (92703038,14), (92631724,14), (92560415,14), (92489110,14), (92417810,14), (92346514,14), (92275223,14), (92203936,14), (92132654,14), (92061376,14), (91990103,14), (91918834,14),
    (91847570,14), (91776310,14), (91705055,14), (91633805,14), (91562559,14), (91491318,14), (91420081,14), (91348848,14), (91277621,14), (91206397,14), (91135179,14), (91063964,14), (90992755,14), (90921549,14), (90850349,14), (90779153,14),
    (90707961,14), (90636774,14), (90565592,14), (90494414,14), (90423240,14), (90352071,14), (90280907,14), (90209747,14), (90138592,14), (90067441,14), (89996295,14), (89925153,14), (89854016,14), (89782883,14), (89711755,14), (89640631,14),
    (89569512,14), (89498397,14), (89427287,14), (89356181,14), (89285080,14), (89213984,14), (89142892,14), (89071804,14), (89000721,14), (88929643,14), (88858569,14), (88787499,14), (88716434,14), (88645374,14), (88574318,14), (88503267,14),
    (88432220,14), (88361178,14), (88290140,14), (88219106,14), (88148078,14), (88077053,14), (88006033,14), (87935018,14), (87864007,14), (87793001,14), (87721999,14), (87651002,14), (87580010,14), (87509021,14), (87438038,14), (87367058,14),
    (87296084,14), (87225114,14), (87154148,14), (87083187,14), (87012230,14), (86941278,14), (86870330,14), (86799387,14), (86728449,14), (86657514,14), (86586585,14), (86515660,14), (86444739,14), (86373823,14), (86302911,14), (86232004,14),
    (86161102,14), (86090204,14), (86019310,14), (85948421,14), (85877536,14), (85806656,14), (85735781,14), (85664909,14), (85594043,14), (85523181,14), (85452323,14), (85381470,14), (85310621,14), (85239777,14), (85168938,14), (85098102,14),
    (85027272,14), (84956446,14), (84885624,14), (84814807,14), (84743994,14), (84673186,14), (84602382,14), (84531583,14), (84460788,14), (84389998,14), (84319213,14), (84248431,14), (84177655,14), (84106882,14), (84036115,14), (83965351,14),
    (83894593,14), (83823838,14), (83753088,14), (83682343,14), (83611602,14), (83540866,14), (83470134,14), (83399407,14), (83328684,14), (83257965,14), (83187251,14), (83116542,14), (83045837,14), (82975137,14), (82904441,14), (82833749,14),
    (82763062,14), (82692379,14), (82621701,14), (82551028,14), (82480359,14), (82409694,14), (82339034,14), (82268378,14), (82197727,14), (82127080,14), (82056438,14), (81985800,14), (81915167,14), (81844538,14), (81773914,14), (81703294,14),
    (81632678,14), (81562068,14), (81491461,14), (81420859,14), (81350262,14), (81279669,14), (81209080,14), (81138496,14), (81067916,14), (80997341,14), (80926770,14), (80856204,14), (80785642,14), (80715085,14), (80644532,14), (80573984,14),
    (80503440,14), (80432901,14), (80362366,14), (80291835,14), (80221309,14), (80150788,14), (80080271,14), (80009758,14), (79939250,14), (79868746,14), (79798247,14), (79727752,14), (79657262,14), (79586776,14), (79516295,14), (79445818,14),
    (79375345,14), (79304877,14), (79234414,14), (79163955,14), (79093500,14), (79023050,14), (78952604,14), (78882163,14), (78811726,14), (78741294,14), (78670866,14), (78600443,14), (78530024,14), (78459609,14), (78389199,14), (78318794,14),
    (78248393,14), (78177996,14), (78107604,14), (78037216,14), (77966833,14), (77896454,14), (77826079,14), (77755709,14), (77685344,14), (77614983,14), (77544626,14), (77474274,14), (77403926,14), (77333583,14), (77263244,14), (77192910,14),
    (77122580,14), (77052254,14), (76981933,14), (76911617,14), (76841304,14), (76770997,14), (76700693,14), (76630395,14), (76560100,14), (76489810,14), (76419525,14), (76349244,14), (76278967,14), (76208695,14), (76138427,14), (76068164,14),
    (75997905,14), (75927651,14), (75857401,14), (75787155,14), (75716914,14), (75646678,14), (75576445,14), (75506218,14), (75435994,14), (75365775,14), (75295561,14), (75225351,14), (75155145,14), (75084944,14), (75014747,14), (74944555,14),
    (74874367,14), (74804184,14), (74734005,14), (74663830,14), (74593660,14), (74523494,14), (74453333,14), (74383176,14), (74313024,14), (74242876,14), (74172732,14), (74102593,14), (74032459,14), (73962328,14), (73892203,14), (73822081,14),
    (73751964,14), (73681852,14), (73611744,14), (73541640,14), (73471541,14), (73401446,14), (73331355,14), (73261269,14), (73191188,14), (73121111,14), (73051038,14), (72980970,14), (72910906,14), (72840846,14), (72770791,14), (72700741,14),
    (72630694,14), (72560653,14), (72490615,14), (72420582,14), (72350554,14), (72280530,14), (72210510,14), (72140495,14), (72070484,14), (72000477,14), (71930475,14), (71860478,14), (71790485,14), (71720496,14), (71650511,14), (71580531,14),
    (71510556,14), (71440585,14), (71370618,14), (71300656,14), (71230698,14), (71160744,14), (71090795,14), (71020851,14), (70950910,14), (70880975,14), (70811043,14), (70741116,14), (70671194,14), (70601275,14), (70531362,14), (70461452,14),
    (70391547,14), (70321647,14), (70251750,14), (70181859,14), (70111971,14), (70042088,14), (69972210,14), (69902336,14), (69832466,14), (69762601,14), (69692740,14), (69622883,14), (69553031,14), (69483183,14), (69413340,14), (69343501,14),
    (69273667,14), (69203836,14), (69134011,14), (69064189,14), (68994372,14), (68924560,14), (68854752,14), (68784948,14), (68715149,14), (68645354,14), (68575563,14), (68505777,14), (68435995,14), (68366218,14), (68296445,14), (68226676,14),
    (68156912,14), (68087152,14), (68017397,14), (67947646,14), (67877899,14), (67808157,14), (67738419,14), (67668686,14), (67598957,14), (67529232,14), (67459512,14), (67389796,14), (67320085,14), (67250378,14), (67180675,14), (67110977,14),
    (67041283,14), (66971593,14), (66901908,14), (66832227,14), (66762551,14), (66692879,14), (66623211,14), (66553548,14), (66483889,14), (66414234,14), (66344584,14), (66274939,14), (66205297,14), (66135660,14), (66066028,14), (65996400,14),
    (65926776,14), (65857156,14), (65787541,14), (65717931,14), (65648324,14), (65578722,14), (65509125,14), (65439532,14), (65369943,14), (65300359,14), (65230779,14), (65161203,14), (65091632,14), (65022065,14), (64952502,14), (64882944,14),
    (64813390,14), (64743841,14), (64674296,14), (64604755,14), (64535219,14), (64465687,14), (64396159,14), (64326636,14), (64257117,14), (64187603,14), (64118093,14), (64048587,14), (63979086,14), (63909589,14), (63840096,14), (63770608,14),
    (63701124,14), (63631645,14), (63562170,14), (63492699,14), (63423233,14), (63353771,14), (63284313,14), (63214860,14), (63145411,14), (63075966,14), (63006526,14), (62937090,14), (62867658,14), (62798231,14), (62728809,14), (62659390,14),
    (62589976,14), (62520566,14), (62451161,14), (62381760,14), (62312364,14), (62242971,14), (62173583,14), (62104200,14), (62034821,14), (61965446,14), (61896076,14), (61826709,14), (61757348,14), (61687990,14), (61618637,14), (61549289,14),
    (61479944,14), (61410604,14), (61341269,14), (61271937,14), (61202610,14), (61133288,14), (61063970,14), (60994656,14), (60925346,14), (60856041,14), (60786740,14), (60717444,14), (60648152,14), (60578864,14), (60509581,14), (60440301,14),
    (60371027,14), (60301756,14), (60232490,14), (60163229,14), (60093971,14), (60024718,14), (59955470,14), (59886225,14), (59816985,14), (59747750,14), (59678519,14), (59609292,14), (59540069,14), (59470851,14), (59401637,14), (59332427,14),
    (59263222,14), (59194021,14), (59124825,14), (59055632,14), (58986445,14), (58917261,14), (58848082,14), (58778907,14), (58709737,14), (58640570,14), (58571409,14), (58502251,14), (58433098,14), (58363949,14), (58294805,14), (58225664,14),
    (58156529,14), (58087397,14), (58018270,14), (57949147,14), (57880029,14), (57810914,14), (57741805,14), (57672699,14), (57603598,14), (57534501,14), (57465409,14), (57396320,14), (57327237,14), (57258157,14), (57189082,14), (57120011,14),
    (57050945,14), (56981882,14), (56912824,14), (56843771,14), (56774722,14), (56705677,14), (56636636,14), (56567600,14), (56498568,14), (56429540,14), (56360517,14), (56291498,14), (56222484,14), (56153473,14), (56084467,14), (56015466,14),
    (55946468,14), (55877475,14), (55808487,14), (55739502,14), (55670522,14), (55601546,14), (55532575,14), (55463608,14), (55394645,14), (55325687,14), (55256732,14), (55187783,14), (55118837,14), (55049896,14), (54980959,14), (54912026,14),
    (54843098,14), (54774174,14), (54705255,14), (54636339,14), (54567428,14), (54498522,14), (54429619,14), (54360721,14), (54291827,14), (54222938,14), (54154053,14), (54085172,14), (54016295,14), (53947423,14), (53878555,14), (53809692,14),
    (53740833,14), (53671978,14), (53603127,14), (53534281,14), (53465439,14), (53396601,14), (53327767,14), (53258938,14), (53190113,14), (53121293,14), (53052477,14), (52983665,14), (52914857,14), (52846054,14), (52777255,14), (52708460,14),
    (52639670,14), (52570884,14), (52502102,14), (52433324,14), (52364551,14), (52295782,14), (52227018,14), (52158257,14), (52089501,14), (52020750,14), (51952002,14), (51883259,14), (51814520,14), (51745786,14), (51677056,14), (51608330,14),
    (51539608,14), (51470891,14), (51402178,14), (51333469,14), (51264765,14), (51196064,14), (51127368,14), (51058677,14), (50989990,14), (50921307,14), (50852628,14), (50783954,14), (50715283,14), (50646618,14), (50577956,14), (50509299,14),
    (50440646,14), (50371997,14), (50303353,14), (50234713,14), (50166077,14), (50097445,14), (50028818,14), (49960195,14), (49891577,14), (49822962,14), (49754352,14), (49685746,14), (49617145,14), (49548548,14), (49479955,14), (49411366,14),
    (49342782,14), (49274202,14), (49205626,14), (49137054,14), (49068487,14), (48999924,14), (48931365,14), (48862811,14), (48794261,14), (48725715,14), (48657173,14), (48588636,14), (48520103,14), (48451574,14), (48383050,14), (48314529,14),
    (48246014,14), (48177502,14), (48108995,14), (48040491,14), (47971993,14), (47903498,14), (47835008,14), (47766522,14), (47698040,14), (47629563,14), (47561089,14), (47492621,14), (47424156,14), (47355696,14), (47287239,14), (47218788,14),
    (47150340,14), (47081897,14), (47013458,14), (46945023,14), (46876593,14), (46808166,14), (46739744,14), (46671327,14), (46602913,14), (46534504,14), (46466099,14), (46397699,14), (46329302,14), (46260910,14), (46192522,14), (46124139,14),
    (46055760,14), (45987385,14), (45919014,14), (45850647,14), (45782285,14), (45713927,14), (45645573,14), (45577224,14), (45508879,14), (45440538,14), (45372201,14), (45303869,14), (45235540,14), (45167216,14), (45098897,14), (45030581,14),
    (44962270,14), (44893963,14), (44825661,14), (44757362,14), (44689068,14), (44620778,14), (44552493,14), (44484212,14), (44415934,14), (44347662,14), (44279393,14), (44211129,14), (44142869,14), (44074613,14), (44006361,14), (43938114,14),
    (43869871,14), (43801632,14), (43733397,14), (43665167,14), (43596941,14), (43528719,14), (43460502,14), (43392288,14), (43324079,14), (43255874,14), (43187674,14), (43119477,14), (43051285,14), (42983097,14), (42914914,14), (42846734,14),
    (42778559,14), (42710388,14), (42642222,14), (42574059,14), (42505901,14), (42437747,14), (42369598,14), (42301452,14), (42233311,14), (42165174,14), (42097041,14), (42028913,14), (41960789,14), (41892669,14), (41824553,14), (41756441,14),
    (41688334,14), (41620231,14), (41552132,14), (41484038,14), (41415947,14), (41347861,14), (41279779,14), (41211702,14), (41143628,14), (41075559,14), (41007494,14), (40939434,14), (40871377,14), (40803325,14), (40735277,14), (40667233,14),
    (40599194,14), (40531159,14), (40463128,14), (40395101,14), (40327078,14), (40259060,14), (40191046,14), (40123036,14), (40055030,14), (39987029,14), (39919031,14), (39851038,14), (39783050,14), (39715065,14), (39647085,14), (39579109,14),
    (39511137,14), (39443169,14), (39375206,14), (39307246,14), (39239292,14), (39171341,14), (39103394,14), (39035452,14), (38967514,14), (38899580,14), (38831650,14), (38763725,14), (38695804,14), (38627887,14), (38559974,14), (38492066,14),
    (38424161,14), (38356261,14), (38288365,14), (38220474,14), (38152586,14), (38084703,14), (38016824,14), (37948949,14), (37881079,14), (37813212,14), (37745350,14), (37677492,14), (37609638,14), (37541789,14), (37473944,14), (37406102,14),
    (37338266,14), (37270433,14), (37202605,14), (37134780,14), (37066960,14), (36999144,14), (36931333,14), (36863525,14), (36795722,14), (36727923,14), (36660129,14), (36592338,14), (36524552,14), (36456770,14), (36388992,14), (36321218,14),
    (36253448,14), (36185683,14), (36117922,14), (36050165,14), (35982412,14), (35914664,14), (35846920,14), (35779180,14), (35711444,14), (35643712,14), (35575984,14), (35508261,14), (35440542,14), (35372827,14), (35305117,14), (35237410,14),
    (35169708,14), (35102010,14), (35034316,14), (34966626,14), (34898941,14), (34831260,14), (34763582,14), (34695910,14), (34628241,14), (34560576,14), (34492916,14), (34425260,14), (34357608,14), (34289960,14), (34222317,14), (34154678,14),
    (34087043,14), (34019412,14), (33951785,14), (33884162,14), (33816544,14), (33748930,14), (33681320,14), (33613714,14), (33546113,14), (33478515,14), (33410922,14), (33343333,14), (33275748,14), (33208167,14), (33140591,14), (33073019,14),
    (33005451,14), (32937887,14), (32870327,14), (32802772,14), (32735220,14), (32667673,14), (32600130,14), (32532591,14), (32465057,14), (32397526,14), (32330000,14), (32262478,14), (32194960,14), (32127447,14), (32059937,14), (31992432,14),
    (31924931,14), (31857434,14), (31789941,14), (31722453,14), (31654968,14), (31587488,14), (31520012,14), (31452540,14), (31385072,14), (31317609,14), (31250150,14), (31182694,14), (31115243,14), (31047797,14), (30980354,14), (30912916,14),
    (30845481,14), (30778051,14), (30710625,14), (30643204,14), (30575786,14), (30508373,14), (30440963,14), (30373558,14), (30306157,14), (30238761,14), (30171368,14), (30103980,14), (30036596,14), (29969216,14), (29901840,14), (29834468,14),
    (29767101,14), (29699737,14), (29632378,14), (29565023,14), (29497672,14), (29430326,14), (29362983,14), (29295645,14), (29228310,14), (29160980,14), (29093655,14), (29026333,14), (28959015,14), (28891702,14), (28824393,14), (28757088,14),
    (28689787,14), (28622490,14), (28555198,14), (28487909,14), (28420625,14), (28353345,14), (28286069,14), (28218797,14), (28151530,14), (28084266,14), (28017007,14), (27949752,14), (27882501,14), (27815254,14), (27748012,14), (27680773,14),
    (27613539,14), (27546309,14), (27479083,14), (27411861,14), (27344643,14), (27277430,14), (27210220,14), (27143015,14), (27075814,14), (27008617,14), (26941424,14), (26874236,14), (26807051,14), (26739871,14), (26672695,14), (26605523,14),
    (26538355,14), (26471191,14), (26404032,14), (26336876,14), (26269725,14), (26202578,14), (26135435,14), (26068296,14), (26001162,14), (25934031,14), (25866905,14), (25799782,14), (25732664,14), (25665550,14), (25598441,14), (25531335,14),
    (25464233,14), (25397136,14), (25330043,14), (25262954,14), (25195869,14), (25128788,14), (25061711,14), (24994639,14), (24927571,14), (24860506,14), (24793446,14), (24726390,14), (24659339,14), (24592291,14), (24525247,14), (24458208,14),
    (24391173,14), (24324142,14), (24257115,14), (24190092,14), (24123073,14), (24056059,14), (23989048,14), (23922042,14), (23855040,14), (23788042,14), (23721048,14), (23654058,14), (23587073,14), (23520091,14), (23453114,14), (23386140,14),
    (23319171,14), (23252206,14), (23185246,14), (23118289,14), (23051336,14), (22984388,14), (22917444,14), (22850503,14), (22783567,14), (22716636,14), (22649708,14), (22582784,14), (22515865,14), (22448949,14), (22382038,14), (22315131,14),
    (22248228,14), (22181329,14), (22114434,14), (22047543,14), (21980657,14), (21913775,14), (21846896,14), (21780022,14), (21713152,14), (21646286,14), (21579424,14), (21512567,14), (21445713,14), (21378864,14), (21312018,14), (21245177,14),
    (21178340,14), (21111507,14), (21044678,14), (20977854,14), (20911033,14), (20844217,14), (20777404,14), (20710596,14), (20643792,14), (20576992,14), (20510196,14), (20443404,14), (20376617,14), (20309833,14), (20243054,14), (20176278,14),
    (20109507,14), (20042740,14), (19975977,14), (19909218,14), (19842464,14), (19775713,14), (19708967,14), (19642224,14), (19575486,14), (19508752,14), (19442022,14), (19375296,14), (19308574,14), (19241856,14), (19175142,14), (19108433,14),
    (19041727,14), (18975026,14), (18908329,14), (18841636,14), (18774947,14), (18708262,14), (18641581,14), (18574904,14), (18508232,14), (18441563,14), (18374899,14), (18308239,14), (18241583,14), (18174931,14), (18108283,14), (18041639,14),
    (17974999,14), (17908363,14), (17841732,14), (17775104,14), (17708481,14), (17641862,14), (17575247,14), (17508636,14), (17442029,14), (17375426,14), (17308827,14), (17242232,14), (17175642,14), (17109055,14), (17042473,14), (16975895,14),
    (16909321,14), (16842750,14), (16776185,14), (16709623,14), (16643065,14), (16576511,14), (16509962,14), (16443416,14), (16376875,14), (16310337,14), (16243804,14), (16177275,14), (16110750,14), (16044229,14), (15977712,14), (15911199,14),
    (15844690,14), (15778186,14), (15711685,14), (15645189,14), (15578697,14), (15512208,14), (15445724,14), (15379244,14), (15312768,14), (15246296,14), (15179828,14), (15113365,14), (15046905,14), (14980449,14), (14913998,14), (14847551,14),
    (14781107,14), (14714668,14), (14648233,14), (14581802,14), (14515375,14), (14448952,14), (14382533,14), (14316118,14), (14249708,14), (14183301,14), (14116899,14), (14050500,14), (13984106,14), (13917716,14), (13851329,14), (13784947,14),
    (13718569,14), (13652195,14), (13585825,14), (13519460,14), (13453098,14), (13386740,14), (13320387,14), (13254037,14), (13187692,14), (13121350,14), (13055013,14), (12988680,14), (12922351,14), (12856026,14), (12789705,14), (12723388,14),
    (12657075,14), (12590766,14), (12524462,14), (12458161,14), (12391864,14), (12325572,14), (12259283,14), (12192999,14), (12126719,14), (12060443,14), (11994171,14), (11927902,14), (11861638,14), (11795378,14), (11729123,14), (11662871,14),
    (11596623,14), (11530379,14), (11464140,14), (11397904,14), (11331673,14), (11265445,14), (11199222,14), (11133003,14), (11066787,14), (11000576,14), (10934369,14), (10868166,14), (10801967,14), (10735772,14), (10669581,14), (10603394,14),
    (10537212,14), (10471033,14), (10404858,14), (10338688,14), (10272521,14), (10206359,14), (10140200,14), (10074046,14), (10007896,14), (9941750,14), (9875607,14), (9809469,14), (9743335,14), (9677205,14), (9611079,14), (9544957,14),
    (9478840,14), (9412726,14), (9346616,14), (9280510,14), (9214409,14), (9148311,14), (9082218,14), (9016128,14), (8950043,14), (8883961,14), (8817884,14), (8751811,14), (8685741,14), (8619676,14), (8553615,14), (8487558,14),
    (8421505,14), (8355456,14), (8289411,14), (8223370,14), (8157333,14), (8091301,14), (8025272,14), (7959247,14), (7893226,14), (7827210,14), (7761197,14), (7695189,14), (7629184,14), (7563184,14), (7497187,14), (7431195,14),
    (7365207,14), (7299222,14), (7233242,14), (7167266,14), (7101294,14), (7035326,14), (6969361,14), (6903401,14), (6837445,14), (6771493,14), (6705545,14), (6639602,14), (6573662,14), (6507726,14), (6441794,14), (6375866,14),
    (6309943,14), (6244023,14), (6178107,14), (6112196,14), (6046288,14), (5980385,14), (5914485,14), (5848590,14), (5782698,14), (5716811,14), (5650927,14), (5585048,14), (5519173,14), (5453301,14), (5387434,14), (5321571,14),
    (5255712,14), (5189857,14), (5124006,14), (5058158,14), (4992315,14), (4926476,14), (4860641,14), (4794810,14), (4728983,14), (4663160,14), (4597341,14), (4531527,14), (4465716,14), (4399909,14), (4334106,14), (4268307,14),
    (4202513,14), (4136722,14), (4070935,14), (4005152,14), (3939374,14), (3873599,14), (3807828,14), (3742062,14), (3676299,14), (3610541,14), (3544786,14), (3479036,14), (3413289,14), (3347547,14), (3281808,14), (3216074,14),
    (3150343,14), (3084617,14), (3018894,14), (2953176,14), (2887462,14), (2821751,14), (2756045,14), (2690343,14), (2624644,14), (2558950,14), (2493260,14), (2427574,14), (2361891,14), (2296213,14), (2230539,14), (2164869,14),
    (2099203,14), (2033540,14), (1967882,14), (1902228,14), (1836578,14), (1770932,14), (1705290,14), (1639651,14), (1574017,14), (1508387,14), (1442761,14), (1377139,14), (1311521,14), (1245907,14), (1180297,14), (1114691,14),
    (1049089,14), (983491,14), (917897,14), (852307,14), (786721,14), (721139,14), (655561,14), (589987,14), (524417,14), (458851,14), (393289,14), (327731,14), (262177,14), (196627,14), (131081,14), (65539,14),
    (2147483649,15), (2147352580,15), (2147221520,15), (2147090468,15), (2146959424,15), (2146828388,15), (2146697360,15), (2146566340,15), (2146435328,15), (2146304324,15), (2146173328,15), (2146042340,15), (2145911360,15), (2145780388,15), (2145649424,15), (2145518468,15),
    (2145387520,15), (2145256580,15), (2145125648,15), (2144994724,15), (2144863808,15), (2144732899,15), (2144601999,15), (2144471107,15), (2144340223,15), (2144209347,15), (2144078478,15), (2143947618,15), (2143816766,15), (2143685922,15), (2143555085,15), (2143424257,15),
    (2143293437,15), (2143162624,15), (2143031820,15), (2142901023,15), (2142770235,15), (2142639454,15), (2142508682,15), (2142377917,15), (2142247161,15), (2142116412,15), (2141985671,15), (2141854939,15), (2141724214,15), (2141593497,15), (2141462789,15), (2141332088,15),
    (2141201395,15), (2141070710,15), (2140940033,15), (2140809364,15), (2140678703,15), (2140548050,15), (2140417405,15), (2140286768,15), (2140156139,15), (2140025518,15), (2139894905,15), (2139764299,15), (2139633702,15), (2139503113,15), (2139372531,15), (2139241958,15),
    (2139111393,15), (2138980835,15), (2138850285,15), (2138719744,15), (2138589210,15), (2138458684,15), (2138328167,15), (2138197657,15), (2138067155,15), (2137936661,15), (2137806175,15), (2137675697,15), (2137545227,15), (2137414765,15), (2137284311,15), (2137153864,15),
    (2137023426,15), (2136892996,15), (2136762573,15), (2136632159,15), (2136501752,15), (2136371354,15), (2136240963,15), (2136110580,15), (2135980206,15), (2135849839,15), (2135719480,15), (2135589129,15), (2135458786,15), (2135328451,15), (2135198123,15), (2135067804,15),
    (2134937493,15), (2134807189,15), (2134676894,15), (2134546606,15), (2134416327,15), (2134286055,15), (2134155791,15), (2134025536,15), (2133895288,15), (2133765048,15), (2133634816,15), (2133504591,15), (2133374375,15), (2133244167,15), (2133113967,15), (2132983774,15),
    (2132853590,15), (2132723413,15), (2132593244,15), (2132463083,15), (2132332931,15), (2132202786,15), (2132072649,15), (2131942520,15), (2131812398,15), (2131682285,15), (2131552180,15), (2131422082,15), (2131291993,15), (2131161911,15), (2131031837,15), (2130901771,15),
    (2130771713,15), (2130641663,15), (2130511621,15), (2130381587,15), (2130251561,15), (2130121542,15), (2129991532,15), (2129861529,15), (2129731535,15), (2129601548,15), (2129471569,15), (2129341598,15), (2129211635,15), (2129081680,15), (2128951732,15), (2128821793,15),
    (2128691862,15), (2128561938,15), (2128432022,15), (2128302114,15), (2128172215,15), (2128042323,15), (2127912438,15), (2127782562,15), (2127652694,15), (2127522833,15), (2127392981,15), (2127263136,15), (2127133299,15), (2127003470,15), (2126873649,15), (2126743836,15),
    (2126614031,15), (2126484234,15), (2126354444,15), (2126224662,15), (2126094889,15), (2125965123,15), (2125835365,15), (2125705615,15), (2125575873,15), (2125446138,15), (2125316412,15), (2125186693,15), (2125056983,15), (2124927280,15), (2124797585,15), (2124667898,15),
    (2124538219,15), (2124408547,15), (2124278884,15), (2124149228,15), (2124019580,15), (2123889941,15), (2123760309,15), (2123630685,15), (2123501068,15), (2123371460,15), (2123241859,15), (2123112267,15), (2122982682,15), (2122853105,15), (2122723536,15), (2122593975,15),
    (2122464422,15), (2122334876,15), (2122205338,15), (2122075809,15), (2121946287,15), (2121816773,15), (2121687267,15), (2121557768,15), (2121428278,15), (2121298795,15), (2121169321,15), (2121039854,15), (2120910395,15), (2120780943,15), (2120651500,15), (2120522065,15),
    (2120392637,15), (2120263217,15), (2120133805,15), (2120004401,15), (2119875005,15), (2119745616,15), (2119616236,15), (2119486863,15), (2119357498,15), (2119228141,15), (2119098792,15), (2118969451,15), (2118840117,15), (2118710792,15), (2118581474,15), (2118452164,15),
    (2118322862,15), (2118193568,15), (2118064281,15), (2117935002,15), (2117805732,15), (2117676469,15), (2117547214,15), (2117417966,15), (2117288727,15), (2117159495,15), (2117030272,15), (2116901056,15), (2116771847,15), (2116642647,15), (2116513455,15), (2116384270,15),
    (2116255093,15), (2116125924,15), (2115996763,15), (2115867610,15), (2115738464,15), (2115609327,15), (2115480197,15), (2115351075,15), (2115221961,15), (2115092854,15), (2114963756,15), (2114834665,15), (2114705582,15), (2114576507,15), (2114447440,15), (2114318380,15),
    (2114189328,15), (2114060285,15), (2113931249,15), (2113802220,15), (2113673200,15), (2113544187,15), (2113415183,15), (2113286186,15), (2113157196,15), (2113028215,15), (2112899242,15), (2112770276,15), (2112641318,15), (2112512368,15), (2112383425,15), (2112254491,15),
    (2112125564,15), (2111996645,15), (2111867734,15), (2111738831,15), (2111609935,15), (2111481048,15), (2111352168,15), (2111223296,15), (2111094432,15), (2110965575,15), (2110836726,15), (2110707885,15), (2110579052,15), (2110450227,15), (2110321410,15), (2110192600,15),
    (2110063798,15), (2109935004,15), (2109806217,15), (2109677439,15), (2109548668,15), (2109419905,15), (2109291150,15), (2109162403,15), (2109033663,15), (2108904931,15), (2108776207,15), (2108647491,15), (2108518783,15), (2108390082,15), (2108261389,15), (2108132704,15),
    (2108004027,15), (2107875357,15), (2107746695,15), (2107618041,15), (2107489395,15), (2107360757,15), (2107232126,15), (2107103503,15), (2106974888,15), (2106846281,15), (2106717681,15), (2106589089,15), (2106460505,15), (2106331929,15), (2106203361,15), (2106074800,15),
    (2105946247,15), (2105817702,15), (2105689165,15), (2105560635,15), (2105432113,15), (2105303599,15), (2105175093,15), (2105046594,15), (2104918104,15), (2104789621,15), (2104661145,15), (2104532678,15), (2104404218,15), (2104275766,15), (2104147322,15), (2104018886,15),
    (2103890457,15), (2103762036,15), (2103633623,15), (2103505218,15), (2103376820,15), (2103248430,15), (2103120048,15), (2102991674,15), (2102863307,15), (2102734948,15), (2102606597,15), (2102478254,15), (2102349918,15), (2102221590,15), (2102093270,15), (2101964958,15),
    (2101836653,15), (2101708356,15), (2101580067,15), (2101451786,15), (2101323512,15), (2101195246,15), (2101066988,15), (2100938738,15), (2100810495,15), (2100682260,15), (2100554033,15), (2100425814,15), (2100297602,15), (2100169398,15), (2100041202,15), (2099913013,15),
    (2099784833,15), (2099656660,15), (2099528494,15), (2099400337,15), (2099272187,15), (2099144045,15), (2099015911,15), (2098887784,15), (2098759665,15), (2098631554,15), (2098503451,15), (2098375355,15), (2098247267,15), (2098119187,15), (2097991114,15), (2097863050,15),
    (2097734993,15), (2097606943,15), (2097478902,15), (2097350868,15), (2097222842,15), (2097094823,15), (2096966813,15), (2096838810,15), (2096710814,15), (2096582827,15), (2096454847,15), (2096326875,15), (2096198911,15), (2096070954,15), (2095943005,15), (2095815064,15),
    (2095687130,15), (2095559204,15), (2095431286,15), (2095303376,15), (2095175473,15), (2095047578,15), (2094919691,15), (2094791812,15), (2094663940,15), (2094536076,15), (2094408219,15), (2094280371,15), (2094152530,15), (2094024696,15), (2093896871,15), (2093769053,15),
    (2093641243,15), (2093513440,15), (2093385645,15), (2093257858,15), (2093130079,15), (2093002307,15), (2092874543,15), (2092746787,15), (2092619039,15), (2092491298,15), (2092363565,15), (2092235839,15), (2092108121,15), (2091980411,15), (2091852709,15), (2091725014,15),
    (2091597327,15), (2091469648,15), (2091341976,15), (2091214312,15), (2091086656,15), (2090959007,15), (2090831367,15), (2090703733,15), (2090576108,15), (2090448490,15), (2090320880,15), (2090193277,15), (2090065683,15), (2089938096,15), (2089810516,15), (2089682945,15),
    (2089555381,15), (2089427824,15), (2089300276,15), (2089172735,15), (2089045201,15), (2088917676,15), (2088790158,15), (2088662647,15), (2088535145,15), (2088407650,15), (2088280163,15), (2088152683,15), (2088025211,15), (2087897747,15), (2087770290,15), (2087642841,15),
    (2087515400,15), (2087387967,15), (2087260541,15), (2087133123,15), (2087005712,15), (2086878309,15), (2086750914,15), (2086623526,15), (2086496147,15), (2086368774,15), (2086241410,15), (2086114053,15), (2085986704,15), (2085859362,15), (2085732028,15), (2085604702,15),
    (2085477383,15), (2085350072,15), (2085222769,15), (2085095474,15), (2084968186,15), (2084840905,15), (2084713633,15), (2084586368,15), (2084459110,15), (2084331861,15), (2084204619,15), (2084077384,15), (2083950158,15), (2083822938,15), (2083695727,15), (2083568523,15),
    (2083441327,15), (2083314139,15), (2083186958,15), (2083059785,15), (2082932619,15), (2082805461,15), (2082678311,15), (2082551168,15), (2082424033,15), (2082296906,15), (2082169786,15), (2082042674,15), (2081915570,15), (2081788473,15), (2081661384,15), (2081534302,15),
    (2081407229,15), (2081280162,15), (2081153104,15), (2081026053,15), (2080899009,15), (2080771974,15), (2080644946,15), (2080517925,15), (2080390913,15), (2080263907,15), (2080136910,15), (2080009920,15), (2079882938,15), (2079755963,15), (2079628996,15), (2079502037,15),
    (2079375085,15), (2079248141,15), (2079121204,15), (2078994275,15), (2078867354,15), (2078740441,15), (2078613535,15), (2078486636,15), (2078359745,15), (2078232862,15), (2078105987,15), (2077979119,15), (2077852258,15), (2077725406,15), (2077598561,15), (2077471723,15),
    (2077344893,15), (2077218071,15), (2077091257,15), (2076964450,15), (2076837650,15), (2076710858,15), (2076584074,15), (2076457298,15), (2076330529,15), (2076203768,15), (2076077014,15), (2075950268,15), (2075823529,15), (2075696798,15), (2075570075,15), (2075443359,15),
    (2075316651,15), (2075189951,15), (2075063258,15), (2074936573,15), (2074809895,15), (2074683225,15), (2074556562,15), (2074429907,15), (2074303260,15), (2074176621,15), (2074049988,15), (2073923364,15), (2073796747,15), (2073670138,15), (2073543536,15), (2073416942,15),
    (2073290355,15), (2073163777,15), (2073037205,15), (2072910642,15), (2072784085,15), (2072657537,15), (2072530996,15), (2072404462,15), (2072277937,15), (2072151418,15), (2072024908,15), (2071898405,15), (2071771909,15), (2071645422,15), (2071518941,15), (2071392469,15),
    (2071266003,15), (2071139546,15), (2071013096,15), (2070886654,15), (2070760219,15), (2070633792,15), (2070507372,15), (2070380960,15), (2070254555,15), (2070128159,15), (2070001769,15), (2069875387,15), (2069749013,15), (2069622647,15), (2069496288,15), (2069369936,15),
    (2069243592,15), (2069117256,15), (2068990927,15), (2068864606,15), (2068738292,15), (2068611986,15), (2068485688,15), (2068359397,15), (2068233114,15), (2068106838,15), (2067980570,15), (2067854309,15), (2067728056,15), (2067601810,15), (2067475572,15), (2067349342,15),
    (2067223119,15), (2067096904,15), (2066970696,15), (2066844496,15), (2066718303,15), (2066592118,15), (2066465941,15), (2066339771,15), (2066213609,15), (2066087454,15), (2065961307,15), (2065835167,15), (2065709035,15), (2065582910,15), (2065456793,15), (2065330683,15),
    (2065204582,15), (2065078487,15), (2064952400,15), (2064826321,15), (2064700249,15), (2064574185,15), (2064448128,15), (2064322079,15), (2064196038,15), (2064070003,15), (2063943977,15), (2063817958,15), (2063691947,15), (2063565943,15), (2063439946,15), (2063313958,15),
    (2063187976,15), (2063062003,15), (2062936036,15), (2062810078,15), (2062684127,15), (2062558183,15), (2062432247,15), (2062306319,15), (2062180398,15), (2062054484,15), (2061928578,15), (2061802680,15), (2061676789,15), (2061550906,15), (2061425030,15), (2061299162,15),
    (2061173301,15), (2061047448,15), (2060921602,15), (2060795764,15), (2060669933,15), (2060544110,15), (2060418295,15), (2060292487,15), (2060166686,15), (2060040893,15), (2059915108,15), (2059789330,15), (2059663559,15), (2059537796,15), (2059412041,15), (2059286293,15),
    (2059160553,15), (2059034820,15), (2058909094,15), (2058783376,15), (2058657666,15), (2058531963,15), (2058406268,15), (2058280580,15), (2058154900,15), (2058029227,15), (2057903562,15), (2057777904,15), (2057652254,15), (2057526611,15), (2057400976,15), (2057275349,15),
    (2057149728,15), (2057024116,15), (2056898510,15), (2056772913,15), (2056647323,15), (2056521740,15), (2056396165,15), (2056270597,15), (2056145037,15), (2056019484,15), (2055893939,15), (2055768401,15), (2055642871,15), (2055517349,15), (2055391833,15), (2055266326,15),
    (2055140826,15), (2055015333,15), (2054889848,15), (2054764370,15), (2054638900,15), (2054513437,15), (2054387982,15), (2054262534,15), (2054137094,15), (2054011661,15), (2053886236,15), (2053760818,15), (2053635408,15), (2053510005,15), (2053384610,15), (2053259222,15),
    (2053133842,15), (2053008469,15), (2052883103,15), (2052757746,15), (2052632395,15), (2052507052,15), (2052381717,15), (2052256389,15), (2052131068,15), (2052005755,15), (2051880450,15), (2051755152,15), (2051629861,15), (2051504578,15), (2051379302,15), (2051254034,15),
    (2051128774,15), (2051003520,15), (2050878275,15), (2050753036,15), (2050627806,15), (2050502582,15), (2050377366,15), (2050252158,15), (2050126957,15), (2050001764,15), (2049876578,15), (2049751399,15), (2049626228,15), (2049501065,15), (2049375909,15), (2049250760,15),
    (2049125619,15), (2049000485,15), (2048875359,15), (2048750240,15), (2048625129,15), (2048500025,15), (2048374928,15), (2048249840,15), (2048124758,15), (2047999684,15), (2047874617,15), (2047749558,15), (2047624507,15), (2047499462,15), (2047374426,15), (2047249396,15),
    (2047124375,15), (2046999360,15), (2046874353,15), (2046749354,15), (2046624362,15), (2046499377,15), (2046374400,15), (2046249430,15), (2046124468,15), (2045999513,15), (2045874566,15), (2045749626,15), (2045624693,15), (2045499768,15), (2045374851,15), (2045249941,15),
    (2045125038,15), (2045000143,15), (2044875255,15), (2044750375,15), (2044625502,15), (2044500636,15), (2044375778,15), (2044250927,15), (2044126084,15), (2044001249,15), (2043876420,15), (2043751599,15), (2043626786,15), (2043501980,15), (2043377181,15), (2043252390,15),
    (2043127607,15), (2043002830,15), (2042878061,15), (2042753300,15), (2042628546,15), (2042503799,15), (2042379060,15), (2042254329,15), (2042129604,15), (2042004887,15), (2041880178,15), (2041755476,15), (2041630781,15), (2041506094,15), (2041381415,15), (2041256742,15),
    (2041132077,15), (2041007420,15), (2040882770,15), (2040758127,15), (2040633492,15), (2040508864,15), (2040384244,15), (2040259631,15), (2040135025,15), (2040010427,15), (2039885836,15), (2039761253,15), (2039636677,15), (2039512109,15), (2039387548,15), (2039262994,15),
    (2039138448,15), (2039013909,15), (2038889378,15), (2038764854,15), (2038640337,15), (2038515828,15), (2038391326,15), (2038266831,15), (2038142345,15), (2038017865,15), (2037893393,15), (2037768928,15), (2037644471,15), (2037520021,15), (2037395578,15), (2037271143,15),
    (2037146715,15), (2037022295,15), (2036897882,15), (2036773476,15), (2036649078,15), (2036524687,15), (2036400304,15), (2036275928,15), (2036151559,15), (2036027198,15), (2035902844,15), (2035778498,15), (2035654159,15), (2035529827,15), (2035405503,15), (2035281186,15),
    (2035156877,15), (2035032575,15), (2034908280,15), (2034783993,15), (2034659713,15), (2034535440,15), (2034411175,15), (2034286917,15), (2034162667,15), (2034038424,15), (2033914188,15), (2033789960,15), (2033665739,15), (2033541526,15), (2033417320,15), (2033293121,15),
    (2033168930,15), (2033044746,15), (2032920569,15), (2032796400,15), (2032672238,15), (2032548084,15), (2032423937,15), (2032299797,15), (2032175665,15), (2032051540,15), (2031927422,15), (2031803312,15), (2031679209,15), (2031555114,15), (2031431025,15), (2031306945,15),
    (2031182871,15), (2031058805,15), (2030934747,15), (2030810696,15), (2030686652,15), (2030562615,15), (2030438586,15), (2030314564,15), (2030190550,15), (2030066543,15), (2029942543,15), (2029818551,15), (2029694566,15), (2029570588,15), (2029446618,15), (2029322655,15),
    (2029198699,15), (2029074751,15), (2028950810,15), (2028826877,15), (2028702951,15), (2028579032,15), (2028455120,15), (2028331216,15), (2028207320,15), (2028083430,15), (2027959548,15), (2027835674,15), (2027711806,15), (2027587946,15), (2027464094,15), (2027340248,15),
    (2027216411,15), (2027092580,15), (2026968757,15), (2026844941,15), (2026721132,15), (2026597331,15), (2026473537,15), (2026349751,15), (2026225972,15), (2026102200,15), (2025978435,15), (2025854678,15), (2025730928,15), (2025607186,15), (2025483451,15), (2025359723,15),
    (2025236003,15), (2025112289,15), (2024988584,15), (2024864885,15), (2024741194,15), (2024617510,15), (2024493834,15), (2024370165,15), (2024246503,15), (2024122848,15), (2023999201,15), (2023875562,15), (2023751929,15), (2023628304,15), (2023504686,15), (2023381076,15),
    (2023257473,15), (2023133877,15), (2023010288,15), (2022886707,15), (2022763133,15), (2022639567,15), (2022516007,15), (2022392456,15), (2022268911,15), (2022145374,15), (2022021844,15), (2021898321,15), (2021774806,15), (2021651298,15), (2021527797,15), (2021404304,15),
    (2021280818,15), (2021157339,15), (2021033868,15), (2020910404,15), (2020786947,15), (2020663498,15), (2020540055,15), (2020416621,15), (2020293193,15), (2020169773,15), (2020046360,15), (2019922954,15), (2019799556,15), (2019676165,15), (2019552782,15), (2019429405,15),
    (2019306036,15), (2019182674,15), (2019059320,15), (2018935973,15), (2018812633,15), (2018689300,15), (2018565975,15), (2018442657,15), (2018319347,15), (2018196043,15), (2018072747,15), (2017949459,15), (2017826177,15), (2017702903,15), (2017579636,15), (2017456377,15),
    (2017333124,15), (2017209879,15), (2017086642,15), (2016963411,15), (2016840188,15), (2016716973,15), (2016593764,15), (2016470563,15), (2016347369,15), (2016224182,15), (2016101003,15), (2015977831,15), (2015854666,15), (2015731509,15), (2015608359,15), (2015485216,15),
    (2015362080,15), (2015238952,15), (2015115831,15), (2014992717,15), (2014869610,15), (2014746511,15), (2014623419,15), (2014500335,15), (2014377257,15), (2014254187,15), (2014131124,15), (2014008069,15), (2013885021,15), (2013761980,15), (2013638946,15), (2013515920,15),
    (2013392900,15), (2013269889,15), (2013146884,15), (2013023887,15), (2012900897,15), (2012777914,15), (2012654938,15), (2012531970,15), (2012409009,15), (2012286055,15), (2012163109,15), (2012040170,15), (2011917238,15), (2011794313,15), (2011671396,15), (2011548486,15),
    (2011425583,15), (2011302687,15), (2011179799,15), (2011056918,15), (2010934044,15), (2010811178,15), (2010688318,15), (2010565466,15), (2010442622,15), (2010319784,15), (2010196954,15), (2010074131,15), (2009951315,15), (2009828507,15), (2009705705,15), (2009582912,15),
    (2009460125,15), (2009337345,15), (2009214573,15), (2009091808,15), (2008969051,15), (2008846300,15), (2008723557,15), (2008600821,15), (2008478092,15), (2008355371,15), (2008232657,15), (2008109950,15), (2007987250,15), (2007864558,15), (2007741872,15), (2007619194,15),
    (2007496524,15), (2007373860,15), (2007251204,15), (2007128555,15), (2007005913,15), (2006883279,15), (2006760651,15), (2006638031,15), (2006515418,15), (2006392813,15), (2006270215,15), (2006147624,15), (2006025040,15), (2005902463,15), (2005779894,15), (2005657331,15),
    (2005534777,15), (2005412229,15), (2005289688,15), (2005167155,15), (2005044629,15), (2004922110,15), (2004799599,15), (2004677095,15), (2004554598,15), (2004432108,15), (2004309625,15), (2004187150,15), (2004064682,15), (2003942221,15), (2003819767,15), (2003697320,15),
    (2003574881,15), (2003452449,15), (2003330024,15), (2003207607,15), (2003085196,15), (2002962793,15), (2002840397,15), (2002718008,15), (2002595627,15), (2002473253,15), (2002350886,15), (2002228526,15), (2002106173,15), (2001983828,15), (2001861489,15), (2001739158,15),
    (2001616835,15), (2001494518,15), (2001372209,15), (2001249907,15), (2001127612,15), (2001005324,15), (2000883043,15), (2000760770,15), (2000638504,15), (2000516245,15), (2000393993,15), (2000271749,15), (2000149512,15), (2000027282,15), (1999905059,15), (1999782843,15),
    (1999660635,15), (1999538433,15), (1999416239,15), (1999294052,15), (1999171873,15), (1999049700,15), (1998927535,15), (1998805377,15), (1998683226,15), (1998561082,15), (1998438946,15), (1998316817,15), (1998194695,15), (1998072580,15), (1997950472,15), (1997828371,15),
    (1997706278,15), (1997584192,15), (1997462113,15), (1997340041,15), (1997217977,15), (1997095919,15), (1996973869,15), (1996851826,15), (1996729791,15), (1996607762,15), (1996485741,15), (1996363726,15), (1996241719,15), (1996119719,15), (1995997727,15), (1995875741,15),
    (1995753763,15), (1995631792,15), (1995509828,15), (1995387871,15), (1995265921,15), (1995143979,15), (1995022044,15), (1994900116,15), (1994778195,15), (1994656281,15), (1994534375,15), (1994412475,15), (1994290583,15), (1994168698,15), (1994046820,15), (1993924950,15),
    (1993803086,15), (1993681230,15), (1993559381,15), (1993437539,15), (1993315704,15), (1993193876,15), (1993072056,15), (1992950243,15), (1992828436,15), (1992706637,15), (1992584846,15), (1992463061,15), (1992341284,15), (1992219513,15), (1992097750,15), (1991975994,15),
    (1991854245,15), (1991732504,15), (1991610769,15), (1991489042,15), (1991367322,15), (1991245609,15), (1991123903,15), (1991002204,15), (1990880513,15), (1990758828,15), (1990637151,15), (1990515481,15), (1990393818,15), (1990272162,15), (1990150514,15), (1990028872,15),
    (1989907238,15), (1989785611,15), (1989663991,15), (1989542378,15), (1989420772,15), (1989299174,15), (1989177582,15), (1989055998,15), (1988934421,15), (1988812851,15), (1988691288,15), (1988569732,15), (1988448184,15), (1988326642,15), (1988205108,15), (1988083581,15),
    (1987962061,15), (1987840548,15), (1987719043,15), (1987597544,15), (1987476053,15), (1987354568,15), (1987233091,15), (1987111621,15), (1986990158,15), (1986868703,15), (1986747254,15), (1986625813,15), (1986504378,15), (1986382951,15), (1986261531,15), (1986140118,15),
    (1986018713,15), (1985897314,15), (1985775922,15), (1985654538,15), (1985533161,15), (1985411791,15), (1985290428,15), (1985169072,15), (1985047723,15), (1984926381,15), (1984805047,15), (1984683720,15), (1984562399,15), (1984441086,15), (1984319780,15), (1984198481,15),
    (1984077190,15), (1983955905,15), (1983834627,15), (1983713357,15), (1983592094,15), (1983470838,15), (1983349589,15), (1983228347,15), (1983107112,15), (1982985884,15), (1982864664,15), (1982743450,15), (1982622244,15), (1982501045,15), (1982379853,15), (1982258668,15),
    (1982137490,15), (1982016319,15), (1981895155,15), (1981773999,15), (1981652849,15), (1981531707,15), (1981410572,15), (1981289444,15), (1981168323,15), (1981047209,15), (1980926102,15), (1980805002,15), (1980683910,15), (1980562824,15), (1980441746,15), (1980320674,15),
    (1980199610,15), (1980078553,15), (1979957503,15), (1979836460,15), (1979715425,15), (1979594396,15), (1979473374,15), (1979352360,15), (1979231352,15), (1979110352,15), (1978989359,15), (1978868373,15), (1978747394,15), (1978626422,15), (1978505457,15), (1978384499,15),
    (1978263549,15), (1978142605,15), (1978021669,15), (1977900739,15), (1977779817,15), (1977658902,15), (1977537994,15), (1977417093,15), (1977296199,15), (1977175312,15), (1977054432,15), (1976933560,15), (1976812694,15), (1976691835,15), (1976570984,15), (1976450140,15),
    (1976329302,15), (1976208472,15), (1976087649,15), (1975966833,15), (1975846024,15), (1975725222,15), (1975604428,15), (1975483640,15), (1975362859,15), (1975242086,15), (1975121319,15), (1975000560,15), (1974879808,15), (1974759062,15), (1974638324,15), (1974517593,15),
    (1974396869,15), (1974276152,15), (1974155442,15), (1974034739,15), (1973914044,15), (1973793355,15), (1973672673,15), (1973551999,15), (1973431331,15), (1973310671,15), (1973190018,15), (1973069371,15), (1972948732,15), (1972828100,15), (1972707475,15), (1972586857,15),
    (1972466246,15), (1972345642,15), (1972225045,15), (1972104455,15), (1971983873,15), (1971863297,15), (1971742728,15), (1971622167,15), (1971501612,15), (1971381065,15), (1971260524,15), (1971139991,15), (1971019465,15), (1970898946,15), (1970778433,15), (1970657928,15),
    (1970537430,15), (1970416939,15), (1970296455,15), (1970175978,15), (1970055509,15), (1969935046,15), (1969814590,15), (1969694141,15), (1969573700,15), (1969453265,15), (1969332837,15), (1969212417,15), (1969092003,15), (1968971597,15), (1968851198,15), (1968730805,15),
    (1968610420,15), (1968490042,15), (1968369670,15), (1968249306,15), (1968128949,15), (1968008599,15), (1967888256,15), (1967767920,15), (1967647591,15), (1967527269,15), (1967406954,15), (1967286646,15), (1967166345,15), (1967046052,15), (1966925765,15), (1966805485,15),
    (1966685212,15), (1966564947,15), (1966444688,15), (1966324436,15), (1966204192,15), (1966083954,15), (1965963724,15), (1965843500,15), (1965723284,15), (1965603074,15), (1965482872,15), (1965362676,15), (1965242488,15), (1965122307,15), (1965002132,15), (1964881965,15),
    (1964761805,15), (1964641651,15), (1964521505,15), (1964401366,15), (1964281234,15), (1964161109,15), (1964040990,15), (1963920879,15), (1963800775,15), (1963680678,15), (1963560588,15), (1963440505,15), (1963320429,15), (1963200360,15), (1963080298,15), (1962960243,15),
    (1962840195,15), (1962720154,15), (1962600120,15), (1962480093,15), (1962360073,15), (1962240060,15), (1962120054,15), (1962000055,15), (1961880063,15), (1961760078,15), (1961640100,15), (1961520129,15), (1961400165,15), (1961280208,15), (1961160258,15), (1961040316,15),
    (1960920380,15), (1960800451,15), (1960680529,15), (1960560614,15), (1960440706,15), (1960320805,15), (1960200911,15), (1960081024,15), (1959961145,15), (1959841272,15), (1959721406,15), (1959601547,15), (1959481695,15), (1959361850,15), (1959242012,15), (1959122181,15),
    (1959002357,15), (1958882540,15), (1958762730,15), (1958642927,15), (1958523131,15), (1958403342,15), (1958283560,15), (1958163785,15), (1958044017,15), (1957924256,15), (1957804502,15), (1957684755,15), (1957565015,15), (1957445282,15), (1957325556,15), (1957205837,15),
    (1957086125,15), (1956966420,15), (1956846722,15), (1956727030,15), (1956607346,15), (1956487669,15), (1956367999,15), (1956248335,15), (1956128679,15), (1956009030,15), (1955889388,15), (1955769752,15), (1955650124,15), (1955530502,15), (1955410888,15), (1955291281,15),
    (1955171680,15), (1955052087,15), (1954932500,15), (1954812920,15), (1954693348,15), (1954573782,15), (1954454224,15), (1954334672,15), (1954215127,15), (1954095589,15), (1953976059,15), (1953856535,15), (1953737018,15), (1953617508,15), (1953498005,15), (1953378509,15),
    (1953259020,15), (1953139538,15), (1953020063,15), (1952900595,15), (1952781134,15), (1952661680,15), (1952542232,15), (1952422792,15), (1952303359,15), (1952183933,15), (1952064513,15), (1951945101,15), (1951825695,15), (1951706297,15), (1951586905,15), (1951467521,15),
    (1951348143,15), (1951228772,15), (1951109408,15), (1950990052,15), (1950870702,15), (1950751359,15), (1950632023,15), (1950512694,15), (1950393372,15), (1950274057,15), (1950154749,15), (1950035447,15), (1949916153,15), (1949796866,15), (1949677586,15), (1949558312,15),
    (1949439046,15), (1949319786,15), (1949200534,15), (1949081288,15), (1948962049,15), (1948842817,15), (1948723593,15), (1948604375,15), (1948485164,15), (1948365960,15), (1948246763,15), (1948127573,15), (1948008389,15), (1947889213,15), (1947770044,15), (1947650881,15),
    (1947531726,15), (1947412577,15), (1947293436,15), (1947174301,15), (1947055173,15), (1946936053,15), (1946816939,15), (1946697832,15), (1946578732,15), (1946459639,15), (1946340553,15), (1946221474,15), (1946102401,15), (1945983336,15), (1945864277,15), (1945745226,15),
    (1945626181,15), (1945507144,15), (1945388113,15), (1945269089,15), (1945150072,15), (1945031062,15), (1944912059,15), (1944793063,15), (1944674074,15), (1944555092,15), (1944436116,15), (1944317148,15), (1944198186,15), (1944079232,15), (1943960284,15), (1943841343,15),
    (1943722409,15), (1943603482,15), (1943484562,15), (1943365649,15), (1943246743,15), (1943127844,15), (1943008951,15), (1942890066,15), (1942771187,15), (1942652316,15), (1942533451,15), (1942414593,15), (1942295742,15), (1942176898,15), (1942058061,15), (1941939231,15),
    (1941820407,15), (1941701591,15), (1941582782,15), (1941463979,15), (1941345183,15), (1941226394,15), (1941107613,15), (1940988838,15), (1940870070,15), (1940751308,15), (1940632554,15), (1940513807,15), (1940395066,15), (1940276333,15), (1940157606,15), (1940038886,15),
    (1939920173,15), (1939801467,15), (1939682768,15), (1939564076,15), (1939445391,15), (1939326712,15), (1939208041,15), (1939089376,15), (1938970718,15), (1938852067,15), (1938733423,15), (1938614786,15), (1938496156,15), (1938377533,15), (1938258916,15), (1938140307,15),
    (1938021704,15), (1937903108,15), (1937784520,15), (1937665938,15), (1937547362,15), (1937428794,15), (1937310233,15), (1937191678,15), (1937073131,15), (1936954590,15), (1936836056,15), (1936717529,15), (1936599009,15), (1936480496,15), (1936361990,15), (1936243490,15),
    (1936124998,15), (1936006512,15), (1935888033,15), (1935769562,15), (1935651096,15), (1935532638,15), (1935414187,15), (1935295743,15), (1935177305,15), (1935058874,15), (1934940451,15), (1934822034,15), (1934703624,15), (1934585220,15), (1934466824,15), (1934348435,15),
    (1934230052,15), (1934111676,15), (1933993307,15), (1933874945,15), (1933756590,15), (1933638242,15), (1933519900,15), (1933401566,15), (1933283238,15), (1933164917,15), (1933046603,15), (1932928296,15), (1932809996,15), (1932691703,15), (1932573416,15), (1932455137,15),
    (1932336864,15), (1932218598,15), (1932100339,15), (1931982086,15), (1931863841,15), (1931745603,15), (1931627371,15), (1931509146,15), (1931390928,15), (1931272717,15), (1931154513,15), (1931036315,15), (1930918125,15), (1930799941,15), (1930681764,15), (1930563594,15),
    (1930445431,15), (1930327275,15), (1930209125,15), (1930090983,15), (1929972847,15), (1929854718,15), (1929736596,15), (1929618480,15), (1929500372,15), (1929382271,15), (1929264176,15), (1929146088,15), (1929028007,15), (1928909933,15), (1928791865,15), (1928673805,15),
    (1928555751,15), (1928437704,15), (1928319664,15), (1928201631,15), (1928083605,15), (1927965585,15), (1927847573,15), (1927729567,15), (1927611568,15), (1927493576,15), (1927375590,15), (1927257612,15), (1927139640,15), (1927021675,15), (1926903717,15), (1926785766,15),
    (1926667822,15), (1926549884,15), (1926431954,15), (1926314030,15), (1926196113,15), (1926078202,15), (1925960299,15), (1925842403,15), (1925724513,15), (1925606630,15), (1925488754,15), (1925370885,15), (1925253022,15), (1925135166,15), (1925017318,15), (1924899476,15),
    (1924781641,15), (1924663812,15), (1924545991,15), (1924428176,15), (1924310368,15), (1924192567,15), (1924074773,15), (1923956985,15), (1923839205,15), (1923721431,15), (1923603664,15), (1923485904,15), (1923368150,15), (1923250404,15), (1923132664,15), (1923014931,15),
    (1922897205,15), (1922779486,15), (1922661773,15), (1922544067,15), (1922426369,15), (1922308676,15), (1922190991,15), (1922073313,15), (1921955641,15), (1921837976,15), (1921720318,15), (1921602667,15), (1921485022,15), (1921367385,15), (1921249754,15), (1921132130,15),
    (1921014513,15), (1920896902,15), (1920779299,15), (1920661702,15), (1920544112,15), (1920426528,15), (1920308952,15), (1920191382,15), (1920073819,15), (1919956263,15), (1919838714,15), (1919721172,15), (1919603636,15), (1919486107,15), (1919368585,15), (1919251070,15),
    (1919133561,15), (1919016059,15), (1918898564,15), (1918781076,15), (1918663595,15), (1918546120,15), (1918428653,15), (1918311192,15), (1918193737,15), (1918076290,15), (1917958849,15), (1917841415,15), (1917723988,15), (1917606568,15), (1917489155,15), (1917371748,15),
    (1917254348,15), (1917136955,15), (1917019568,15), (1916902189,15), (1916784816,15), (1916667450,15), (1916550091,15), (1916432738,15), (1916315393,15), (1916198054,15), (1916080721,15), (1915963396,15), (1915846078,15), (1915728766,15), (1915611461,15), (1915494162,15),
    (1915376871,15), (1915259586,15), (1915142308,15), (1915025037,15), (1914907773,15), (1914790515,15), (1914673264,15), (1914556020,15), (1914438783,15), (1914321552,15), (1914204328,15), (1914087111,15), (1913969901,15), (1913852697,15), (1913735501,15), (1913618311,15),
    (1913501127,15), (1913383951,15), (1913266781,15), (1913149618,15), (1913032462,15), (1912915313,15), (1912798170,15), (1912681034,15), (1912563905,15), (1912446782,15), (1912329667,15), (1912212558,15), (1912095456,15), (1911978360,15), (1911861272,15), (1911744190,15),
    (1911627115,15), (1911510047,15), (1911392985,15), (1911275930,15), (1911158882,15), (1911041841,15), (1910924806,15), (1910807778,15), (1910690757,15), (1910573743,15), (1910456735,15), (1910339734,15), (1910222740,15), (1910105753,15), (1909988772,15), (1909871798,15),
    (1909754831,15), (1909637871,15), (1909520917,15), (1909403970,15), (1909287030,15), (1909170097,15), (1909053170,15), (1908936250,15), (1908819337,15), (1908702431,15), (1908585531,15), (1908468638,15), (1908351752,15), (1908234872,15), (1908118000,15), (1908001134,15),
    (1907884274,15), (1907767422,15), (1907650576,15), (1907533737,15), (1907416904,15), (1907300079,15), (1907183260,15), (1907066448,15), (1906949642,15), (1906832844,15), (1906716052,15), (1906599266,15), (1906482488,15), (1906365716,15), (1906248951,15), (1906132193,15),
    (1906015441,15), (1905898696,15), (1905781958,15), (1905665227,15), (1905548502,15), (1905431784,15), (1905315073,15), (1905198368,15), (1905081670,15), (1904964979,15), (1904848295,15), (1904731617,15), (1904614946,15), (1904498282,15), (1904381624,15), (1904264974,15),
    (1904148330,15), (1904031692,15), (1903915062,15), (1903798438,15), (1903681820,15), (1903565210,15), (1903448606,15), (1903332009,15), (1903215419,15), (1903098835,15), (1902982258,15), (1902865688,15), (1902749124,15), (1902632568,15), (1902516017,15), (1902399474,15),
    (1902282937,15), (1902166407,15), (1902049884,15), (1901933367,15), (1901816858,15), (1901700354,15), (1901583858,15), (1901467368,15), (1901350885,15), (1901234409,15), (1901117939,15), (1901001476,15), (1900885020,15), (1900768570,15), (1900652128,15), (1900535691,15),
    (1900419262,15), (1900302839,15), (1900186423,15), (1900070014,15), (1899953611,15), (1899837215,15), (1899720826,15), (1899604443,15), (1899488067,15), (1899371698,15), (1899255336,15), (1899138980,15), (1899022631,15), (1898906288,15), (1898789953,15), (1898673623,15),
    (1898557301,15), (1898440985,15), (1898324676,15), (1898208374,15), (1898092078,15), (1897975790,15), (1897859507,15), (1897743232,15), (1897626963,15), (1897510701,15), (1897394445,15), (1897278196,15), (1897161954,15), (1897045719,15), (1896929490,15), (1896813268,15),
    (1896697052,15), (1896580844,15), (1896464642,15), (1896348446,15), (1896232257,15), (1896116075,15), (1895999900,15), (1895883731,15), (1895767569,15), (1895651414,15), (1895535265,15), (1895419123,15), (1895302988,15), (1895186859,15), (1895070737,15), (1894954622,15),
    (1894838513,15), (1894722411,15), (1894606316,15), (1894490228,15), (1894374146,15), (1894258070,15), (1894142002,15), (1894025940,15), (1893909884,15), (1893793836,15), (1893677794,15), (1893561759,15), (1893445730,15), (1893329708,15), (1893213693,15), (1893097684,15),
    (1892981682,15), (1892865687,15), (1892749698,15), (1892633716,15), (1892517741,15), (1892401772,15), (1892285810,15), (1892169854,15), (1892053906,15), (1891937964,15), (1891822028,15), (1891706100,15), (1891590177,15), (1891474262,15), (1891358353,15), (1891242451,15),
    (1891126556,15), (1891010667,15), (1890894785,15), (1890778909,15), (1890663040,15), (1890547178,15), (1890431322,15), (1890315473,15), (1890199631,15), (1890083795,15), (1889967966,15), (1889852144,15), (1889736328,15), (1889620519,15), (1889504717,15), (1889388921,15),
    (1889273132,15), (1889157349,15), (1889041573,15), (1888925804,15), (1888810042,15), (1888694286,15), (1888578536,15), (1888462794,15), (1888347058,15), (1888231328,15), (1888115606,15), (1887999890,15), (1887884180,15), (1887768477,15), (1887652781,15), (1887537091,15),
    (1887421409,15), (1887305732,15), (1887190063,15), (1887074400,15), (1886958743,15), (1886843093,15), (1886727450,15), (1886611814,15), (1886496184,15), (1886380561,15), (1886264944,15), (1886149334,15), (1886033731,15), (1885918134,15), (1885802544,15), (1885686960,15),
    (1885571383,15), (1885455813,15), (1885340249,15), (1885224692,15), (1885109142,15), (1884993598,15), (1884878061,15), (1884762531,15), (1884647007,15), (1884531489,15), (1884415979,15), (1884300475,15), (1884184977,15), (1884069487,15), (1883954002,15), (1883838525,15),
    (1883723054,15), (1883607589,15), (1883492132,15), (1883376681,15), (1883261236,15), (1883145798,15), (1883030367,15), (1882914942,15), (1882799524,15), (1882684113,15), (1882568708,15), (1882453310,15), (1882337918,15), (1882222533,15), (1882107155,15), (1881991783,15),
    (1881876418,15), (1881761059,15), (1881645707,15), (1881530362,15), (1881415023,15), (1881299691,15), (1881184365,15), (1881069046,15), (1880953734,15), (1880838428,15), (1880723129,15), (1880607836,15), (1880492550,15), (1880377271,15), (1880261998,15), (1880146732,15),
    (1880031473,15), (1879916220,15), (1879800973,15), (1879685733,15), (1879570500,15), (1879455274,15), (1879340054,15), (1879224840,15), (1879109633,15), (1878994433,15), (1878879240,15), (1878764053,15), (1878648872,15), (1878533698,15), (1878418531,15), (1878303370,15),
    (1878188216,15), (1878073069,15), (1877957928,15), (1877842793,15), (1877727666,15), (1877612545,15), (1877497430,15), (1877382322,15), (1877267221,15), (1877152126,15), (1877037038,15), (1876921956,15), (1876806881,15), (1876691812,15), (1876576750,15), (1876461695,15),
    (1876346646,15), (1876231604,15), (1876116569,15), (1876001539,15), (1875886517,15), (1875771501,15), (1875656492,15), (1875541489,15), (1875426493,15), (1875311503,15), (1875196520,15), (1875081544,15), (1874966574,15), (1874851611,15), (1874736654,15), (1874621704,15),
    (1874506760,15), (1874391823,15), (1874276893,15), (1874161969,15), (1874047052,15), (1873932141,15), (1873817237,15), (1873702339,15), (1873587448,15), (1873472564,15), (1873357686,15), (1873242815,15), (1873127950,15), (1873013092,15), (1872898240,15), (1872783395,15),
    (1872668556,15), (1872553724,15), (1872438899,15), (1872324080,15), (1872209268,15), (1872094462,15), (1871979663,15), (1871864870,15), (1871750084,15), (1871635305,15), (1871520532,15), (1871405766,15), (1871291006,15), (1871176252,15), (1871061506,15), (1870946766,15),
    (1870832032,15), (1870717305,15), (1870602584,15), (1870487870,15), (1870373163,15), (1870258462,15), (1870143768,15), (1870029080,15), (1869914399,15), (1869799724,15), (1869685056,15), (1869570394,15), (1869455739,15), (1869341091,15), (1869226449,15), (1869111813,15),
    (1868997185,15), (1868882562,15), (1868767946,15), (1868653337,15), (1868538735,15), (1868424138,15), (1868309549,15), (1868194966,15), (1868080389,15), (1867965819,15), (1867851256,15), (1867736699,15), (1867622148,15), (1867507604,15), (1867393067,15), (1867278536,15),
    (1867164012,15), (1867049494,15), (1866934983,15), (1866820479,15), (1866705980,15), (1866591489,15), (1866477004,15), (1866362525,15), (1866248053,15), (1866133588,15), (1866019129,15), (1865904676,15), (1865790231,15), (1865675791,15), (1865561358,15), (1865446932,15),
    (1865332512,15), (1865218099,15), (1865103692,15), (1864989292,15), (1864874898,15), (1864760511,15), (1864646131,15), (1864531756,15), (1864417389,15), (1864303028,15), (1864188673,15), (1864074325,15), (1863959984,15), (1863845649,15), (1863731320,15), (1863616998,15),
    (1863502683,15), (1863388374,15), (1863274071,15), (1863159775,15), (1863045486,15), (1862931203,15), (1862816927,15), (1862702657,15), (1862588394,15), (1862474137,15), (1862359886,15), (1862245643,15), (1862131405,15), (1862017175,15), (1861902950,15), (1861788733,15),
    (1861674521,15), (1861560316,15), (1861446118,15), (1861331926,15), (1861217741,15), (1861103562,15), (1860989390,15), (1860875225,15), (1860761065,15), (1860646913,15), (1860532766,15), (1860418627,15), (1860304493,15), (1860190367,15), (1860076246,15), (1859962133,15),
    (1859848025,15), (1859733925,15), (1859619831,15), (1859505743,15), (1859391662,15), (1859277587,15), (1859163519,15), (1859049457,15), (1858935402,15), (1858821353,15), (1858707311,15), (1858593275,15), (1858479245,15), (1858365223,15), (1858251206,15), (1858137197,15),
    (1858023193,15), (1857909196,15), (1857795206,15), (1857681222,15), (1857567245,15), (1857453274,15), (1857339310,15), (1857225352,15), (1857111400,15), (1856997455,15), (1856883517,15), (1856769585,15), (1856655659,15), (1856541740,15), (1856427828,15), (1856313922,15),
    (1856200022,15), (1856086129,15), (1855972242,15), (1855858362,15), (1855744489,15), (1855630622,15), (1855516761,15), (1855402907,15), (1855289059,15), (1855175218,15), (1855061383,15), (1854947554,15), (1854833733,15), (1854719917,15), (1854606108,15), (1854492306,15),
    (1854378510,15), (1854264721,15), (1854150938,15), (1854037161,15), (1853923391,15), (1853809627,15), (1853695870,15), (1853582120,15), (1853468375,15), (1853354638,15), (1853240906,15), (1853127182,15), (1853013463,15), (1852899751,15), (1852786046,15), (1852672347,15),
    (1852558655,15), (1852444969,15), (1852331289,15), (1852217616,15), (1852103949,15), (1851990289,15), (1851876635,15), (1851762988,15), (1851649347,15), (1851535713,15), (1851422085,15), (1851308464,15), (1851194849,15), (1851081240,15), (1850967638,15), (1850854043,15),
    (1850740454,15), (1850626871,15), (1850513295,15), (1850399725,15), (1850286161,15), (1850172605,15), (1850059054,15), (1849945510,15), (1849831973,15), (1849718442,15), (1849604917,15), (1849491399,15), (1849377887,15), (1849264382,15), (1849150883,15), (1849037391,15),
    (1848923905,15), (1848810425,15), (1848696952,15), (1848583485,15), (1848470025,15), (1848356572,15), (1848243124,15), (1848129683,15), (1848016249,15), (1847902821,15), (1847789400,15), (1847675984,15), (1847562576,15), (1847449174,15), (1847335778,15), (1847222389,15),
    (1847109006,15), (1846995629,15), (1846882259,15), (1846768896,15), (1846655538,15), (1846542188,15), (1846428843,15), (1846315506,15), (1846202174,15), (1846088849,15), (1845975531,15), (1845862218,15), (1845748913,15), (1845635614,15), (1845522321,15), (1845409034,15),
    (1845295754,15), (1845182481,15), (1845069214,15), (1844955953,15), (1844842699,15), (1844729451,15), (1844616209,15), (1844502974,15), (1844389746,15), (1844276524,15), (1844163308,15), (1844050099,15), (1843936896,15), (1843823699,15), (1843710509,15), (1843597326,15),
    (1843484148,15), (1843370978,15), (1843257813,15), (1843144655,15), (1843031504,15), (1842918359,15), (1842805220,15), (1842692088,15), (1842578962,15), (1842465842,15), (1842352729,15), (1842239623,15), (1842126522,15), (1842013429,15), (1841900341,15), (1841787260,15),
    (1841674186,15), (1841561118,15), (1841448056,15), (1841335000,15), (1841221952,15), (1841108909,15), (1840995873,15), (1840882843,15), (1840769820,15), (1840656803,15), (1840543792,15), (1840430788,15), (1840317791,15), (1840204799,15), (1840091814,15), (1839978836,15),
    (1839865864,15), (1839752898,15), (1839639939,15), (1839526986,15), (1839414040,15), (1839301100,15), (1839188166,15), (1839075239,15), (1838962318,15), (1838849403,15), (1838736495,15), (1838623593,15), (1838510698,15), (1838397809,15), (1838284927,15), (1838172051,15),
    (1838059181,15), (1837946318,15), (1837833461,15), (1837720610,15), (1837607766,15), (1837494928,15), (1837382097,15), (1837269272,15), (1837156453,15), (1837043641,15), (1836930835,15), (1836818036,15), (1836705243,15), (1836592456,15), (1836479676,15), (1836366902,15),
    (1836254134,15), (1836141373,15), (1836028618,15), (1835915870,15), (1835803128,15), (1835690393,15), (1835577663,15), (1835464940,15), (1835352224,15), (1835239514,15), (1835126810,15), (1835014113,15), (1834901422,15), (1834788737,15), (1834676059,15), (1834563387,15),
    (1834450722,15), (1834338063,15), (1834225410,15), (1834112764,15), (1834000124,15), (1833887490,15), (1833774863,15), (1833662242,15), (1833549628,15), (1833437020,15), (1833324418,15), (1833211823,15), (1833099234,15), (1832986651,15), (1832874075,15), (1832761505,15),
    (1832648942,15), (1832536385,15), (1832423834,15), (1832311289,15), (1832198751,15), (1832086220,15), (1831973694,15), (1831861176,15), (1831748663,15), (1831636157,15), (1831523657,15), (1831411163,15), (1831298676,15), (1831186195,15), (1831073721,15), (1830961253,15),
    (1830848791,15), (1830736336,15), (1830623887,15), (1830511444,15), (1830399008,15), (1830286578,15), (1830174155,15), (1830061737,15), (1829949327,15), (1829836922,15), (1829724524,15), (1829612132,15), (1829499747,15), (1829387368,15), (1829274995,15), (1829162629,15),
    (1829050269,15), (1828937915,15), (1828825567,15), (1828713227,15), (1828600892,15), (1828488564,15), (1828376242,15), (1828263926,15), (1828151617,15), (1828039314,15), (1827927017,15), (1827814727,15), (1827702443,15), (1827590166,15), (1827477894,15), (1827365630,15),
    (1827253371,15), (1827141119,15), (1827028873,15), (1826916634,15), (1826804400,15), (1826692174,15), (1826579953,15), (1826467739,15), (1826355531,15), (1826243330,15), (1826131135,15), (1826018946,15), (1825906763,15), (1825794587,15), (1825682418,15), (1825570254,15),
    (1825458097,15), (1825345946,15), (1825233802,15), (1825121664,15), (1825009532,15), (1824897406,15), (1824785287,15), (1824673174,15), (1824561068,15), (1824448968,15), (1824336874,15), (1824224786,15), (1824112705,15), (1824000630,15), (1823888562,15), (1823776500,15),
    (1823664444,15), (1823552394,15), (1823440351,15), (1823328314,15), (1823216284,15), (1823104259,15), (1822992241,15), (1822880230,15), (1822768224,15), (1822656225,15), (1822544233,15), (1822432246,15), (1822320266,15), (1822208293,15), (1822096325,15), (1821984364,15),
    (1821872409,15), (1821760461,15), (1821648519,15), (1821536583,15), (1821424654,15), (1821312730,15), (1821200813,15), (1821088903,15), (1820976999,15), (1820865101,15), (1820753209,15), (1820641324,15), (1820529445,15), (1820417572,15), (1820305706,15), (1820193846,15),
    (1820081992,15), (1819970144,15), (1819858303,15), (1819746468,15), (1819634640,15), (1819522817,15), (1819411001,15), (1819299192,15), (1819187388,15), (1819075591,15), (1818963801,15), (1818852016,15), (1818740238,15), (1818628466,15), (1818516701,15), (1818404941,15),
    (1818293188,15), (1818181442,15), (1818069701,15), (1817957967,15), (1817846240,15), (1817734518,15), (1817622803,15), (1817511094,15), (1817399392,15), (1817287695,15), (1817176005,15), (1817064322,15), (1816952644,15), (1816840973,15), (1816729308,15), (1816617650,15),
    (1816505997,15), (1816394352,15), (1816282712,15), (1816171078,15), (1816059451,15), (1815947831,15), (1815836216,15), (1815724608,15), (1815613006,15), (1815501410,15), (1815389821,15), (1815278238,15), (1815166661,15), (1815055090,15), (1814943526,15), (1814831968,15),
    (1814720417,15), (1814608871,15), (1814497332,15), (1814385799,15), (1814274273,15), (1814162752,15), (1814051238,15), (1813939731,15), (1813828229,15), (1813716734,15), (1813605245,15), (1813493763,15), (1813382286,15), (1813270816,15), (1813159352,15), (1813047895,15),
    (1812936444,15), (1812824999,15), (1812713560,15), (1812602127,15), (1812490701,15), (1812379281,15), (1812267868,15), (1812156460,15), (1812045059,15), (1811933665,15), (1811822276,15), (1811710894,15), (1811599518,15), (1811488148,15), (1811376784,15), (1811265427,15),
    (1811154076,15), (1811042732,15), (1810931393,15), (1810820061,15), (1810708735,15), (1810597415,15), (1810486102,15), (1810374795,15), (1810263494,15), (1810152200,15), (1810040911,15), (1809929629,15), (1809818353,15), (1809707084,15), (1809595820,15), (1809484563,15),
    (1809373313,15), (1809262068,15), (1809150830,15), (1809039598,15), (1808928372,15), (1808817152,15), (1808705939,15), (1808594732,15), (1808483531,15), (1808372337,15), (1808261149,15), (1808149967,15), (1808038791,15), (1807927621,15), (1807816458,15), (1807705301,15),
    (1807594150,15), (1807483006,15), (1807371867,15), (1807260735,15), (1807149610,15), (1807038490,15), (1806927377,15), (1806816270,15), (1806705169,15), (1806594074,15), (1806482986,15), (1806371904,15), (1806260828,15), (1806149759,15), (1806038695,15), (1805927638,15),
    (1805816587,15), (1805705543,15), (1805594504,15), (1805483472,15), (1805372446,15), (1805261426,15), (1805150413,15), (1805039406,15), (1804928405,15), (1804817410,15), (1804706421,15), (1804595439,15), (1804484463,15), (1804373493,15), (1804262530,15), (1804151572,15),
    (1804040621,15), (1803929676,15), (1803818738,15), (1803707805,15), (1803596879,15), (1803485959,15), (1803375045,15), (1803264138,15), (1803153236,15), (1803042341,15), (1802931453,15), (1802820570,15), (1802709694,15), (1802598823,15), (1802487959,15), (1802377102,15),
    (1802266250,15), (1802155405,15), (1802044566,15), (1801933733,15), (1801822906,15), (1801712086,15), (1801601272,15), (1801490464,15), (1801379662,15), (1801268867,15), (1801158077,15), (1801047294,15), (1800936517,15), (1800825747,15), (1800714982,15), (1800604224,15),
    (1800493472,15), (1800382726,15), (1800271987,15), (1800161253,15), (1800050526,15), (1799939805,15), (1799829090,15), (1799718382,15), (1799607679,15), (1799496983,15), (1799386293,15), (1799275610,15), (1799164932,15), (1799054261,15), (1798943596,15), (1798832937,15),
    (1798722284,15), (1798611638,15), (1798500998,15), (1798390364,15), (1798279736,15), (1798169114,15), (1798058499,15), (1797947889,15), (1797837286,15), (1797726690,15), (1797616099,15), (1797505515,15), (1797394936,15), (1797284364,15), (1797173798,15), (1797063239,15),
    (1796952685,15), (1796842138,15), (1796731597,15), (1796621062,15), (1796510534,15), (1796400011,15), (1796289495,15), (1796178985,15), (1796068481,15), (1795957983,15), (1795847492,15), (1795737006,15), (1795626527,15), (1795516054,15), (1795405588,15), (1795295127,15),
    (1795184673,15), (1795074224,15), (1794963782,15), (1794853347,15), (1794742917,15), (1794632494,15), (1794522076,15), (1794411665,15), (1794301261,15), (1794190862,15), (1794080469,15), (1793970083,15), (1793859703,15), (1793749329,15), (1793638961,15), (1793528600,15),
    (1793418244,15), (1793307895,15), (1793197552,15), (1793087215,15), (1792976884,15), (1792866560,15), (1792756242,15), (1792645929,15), (1792535623,15), (1792425324,15), (1792315030,15), (1792204742,15), (1792094461,15), (1791984186,15), (1791873917,15), (1791763654,15),
    (1791653398,15), (1791543147,15), (1791432903,15), (1791322665,15), (1791212433,15), (1791102207,15), (1790991988,15), (1790881775,15), (1790771567,15), (1790661366,15), (1790551171,15), (1790440983,15), (1790330800,15), (1790220624,15), (1790110453,15), (1790000289,15),
    (1789890131,15), (1789779980,15), (1789669834,15), (1789559695,15), (1789449561,15), (1789339434,15), (1789229313,15), (1789119199,15), (1789009090,15), (1788898988,15), (1788788891,15), (1788678801,15), (1788568717,15), (1788458639,15), (1788348568,15), (1788238502,15),
    (1788128443,15), (1788018390,15), (1787908343,15), (1787798302,15), (1787688267,15), (1787578239,15), (1787468216,15), (1787358200,15), (1787248190,15), (1787138186,15), (1787028188,15), (1786918196,15), (1786808211,15), (1786698231,15), (1786588258,15), (1786478291,15),
    (1786368330,15), (1786258375,15), (1786148427,15), (1786038484,15), (1785928548,15), (1785818618,15), (1785708694,15), (1785598776,15), (1785488864,15), (1785378958,15), (1785269059,15), (1785159166,15), (1785049278,15), (1784939397,15), (1784829523,15), (1784719654,15),
    (1784609791,15), (1784499935,15), (1784390084,15), (1784280240,15), (1784170402,15), (1784060570,15), (1783950744,15), (1783840925,15), (1783731111,15), (1783621304,15), (1783511502,15), (1783401707,15), (1783291918,15), (1783182135,15), (1783072359,15), (1782962588,15),
    (1782852824,15), (1782743065,15), (1782633313,15), (1782523567,15), (1782413827,15), (1782304093,15), (1782194365,15), (1782084644,15), (1781974928,15), (1781865219,15), (1781755516,15), (1781645819,15), (1781536128,15), (1781426443,15), (1781316764,15), (1781207092,15),
    (1781097425,15), (1780987765,15), (1780878111,15), (1780768463,15), (1780658821,15), (1780549185,15), (1780439555,15), (1780329932,15), (1780220314,15), (1780110703,15), (1780001098,15), (1779891498,15), (1779781905,15), (1779672319,15), (1779562738,15), (1779453163,15),
    (1779343595,15), (1779234032,15), (1779124476,15), (1779014926,15), (1778905381,15), (1778795844,15), (1778686312,15), (1778576786,15), (1778467266,15), (1778357753,15), (1778248245,15), (1778138744,15), (1778029249,15), (1777919760,15), (1777810277,15), (1777700800,15),
    (1777591329,15), (1777481864,15), (1777372406,15), (1777262953,15), (1777153507,15), (1777044067,15), (1776934632,15), (1776825204,15), (1776715782,15), (1776606367,15), (1776496957,15), (1776387553,15), (1776278156,15), (1776168764,15), (1776059379,15), (1775950000,15),
    (1775840626,15), (1775731259,15), (1775621898,15), (1775512544,15), (1775403195,15), (1775293852,15), (1775184516,15), (1775075185,15), (1774965861,15), (1774856542,15), (1774747230,15), (1774637924,15), (1774528624,15), (1774419330,15), (1774310042,15), (1774200761,15),
    (1774091485,15), (1773982215,15), (1773872952,15), (1773763695,15), (1773654443,15), (1773545198,15), (1773435959,15), (1773326726,15), (1773217499,15), (1773108278,15), (1772999063,15), (1772889855,15), (1772780652,15), (1772671456,15), (1772562265,15), (1772453081,15),
    (1772343903,15), (1772234730,15), (1772125564,15), (1772016404,15), (1771907250,15), (1771798102,15), (1771688961,15), (1771579825,15), (1771470695,15), (1771361572,15), (1771252454,15), (1771143343,15), (1771034237,15), (1770925138,15), (1770816045,15), (1770706958,15),
    (1770597877,15), (1770488802,15), (1770379733,15), (1770270670,15), (1770161613,15), (1770052563,15), (1769943518,15), (1769834480,15), (1769725447,15), (1769616421,15), (1769507401,15), (1769398386,15), (1769289378,15), (1769180376,15), (1769071380,15), (1768962390,15),
    (1768853406,15), (1768744428,15), (1768635456,15), (1768526491,15), (1768417531,15), (1768308577,15), (1768199630,15), (1768090688,15), (1767981753,15), (1767872824,15), (1767763900,15), (1767654983,15), (1767546072,15), (1767437167,15), (1767328268,15), (1767219375,15),
    (1767110488,15), (1767001607,15), (1766892732,15), (1766783863,15), (1766675001,15), (1766566144,15), (1766457293,15), (1766348449,15), (1766239610,15), (1766130778,15), (1766021952,15), (1765913131,15), (1765804317,15), (1765695509,15), (1765586707,15), (1765477910,15),
    (1765369120,15), (1765260336,15), (1765151558,15), (1765042786,15), (1764934021,15), (1764825261,15), (1764716507,15), (1764607759,15), (1764499017,15), (1764390282,15), (1764281552,15), (1764172829,15), (1764064111,15), (1763955400,15), (1763846694,15), (1763737995,15),
    (1763629301,15), (1763520614,15), (1763411933,15), (1763303258,15), (1763194588,15), (1763085925,15), (1762977268,15), (1762868617,15), (1762759972,15), (1762651333,15), (1762542700,15), (1762434073,15), (1762325452,15), (1762216837,15), (1762108229,15), (1761999626,15),
    (1761891029,15), (1761782438,15), (1761673854,15), (1761565275,15), (1761456702,15), (1761348136,15), (1761239575,15), (1761131021,15), (1761022472,15), (1760913930,15), (1760805393,15), (1760696863,15), (1760588338,15), (1760479820,15), (1760371308,15), (1760262801,15),
    (1760154301,15), (1760045807,15), (1759937319,15), (1759828836,15), (1759720360,15), (1759611890,15), (1759503426,15), (1759394968,15), (1759286516,15), (1759178070,15), (1759069629,15), (1758961195,15), (1758852767,15), (1758744345,15), (1758635929,15), (1758527519,15),
    (1758419115,15), (1758310718,15), (1758202326,15), (1758093940,15), (1757985560,15), (1757877186,15), (1757768818,15), (1757660456,15), (1757552100,15), (1757443751,15), (1757335407,15), (1757227069,15), (1757118737,15), (1757010411,15), (1756902092,15), (1756793778,15),
    (1756685470,15), (1756577168,15), (1756468873,15), (1756360583,15), (1756252299,15), (1756144022,15), (1756035750,15), (1755927484,15), (1755819225,15), (1755710971,15), (1755602723,15), (1755494482,15), (1755386246,15), (1755278016,15), (1755169793,15), (1755061575,15),
    (1754953363,15), (1754845158,15), (1754736958,15), (1754628764,15), (1754520577,15), (1754412395,15), (1754304219,15), (1754196050,15), (1754087886,15), (1753979728,15), (1753871577,15), (1753763431,15), (1753655291,15), (1753547158,15), (1753439030,15), (1753330908,15),
    (1753222793,15), (1753114683,15), (1753006579,15), (1752898481,15), (1752790390,15), (1752682304,15), (1752574224,15), (1752466150,15), (1752358083,15), (1752250021,15), (1752141965,15), (1752033915,15), (1751925871,15), (1751817834,15), (1751709802,15), (1751601776,15),
    (1751493756,15), (1751385742,15), (1751277734,15), (1751169732,15), (1751061736,15), (1750953746,15), (1750845762,15), (1750737784,15), (1750629812,15), (1750521846,15), (1750413886,15), (1750305932,15), (1750197984,15), (1750090042,15), (1749982106,15), (1749874176,15),
    (1749766252,15), (1749658333,15), (1749550421,15), (1749442515,15), (1749334615,15), (1749226720,15), (1749118832,15), (1749010950,15), (1748903073,15), (1748795203,15), (1748687338,15), (1748579480,15), (1748471628,15), (1748363781,15), (1748255940,15), (1748148106,15),
    (1748040277,15), (1747932455,15), (1747824638,15), (1747716827,15), (1747609023,15), (1747501224,15), (1747393431,15), (1747285644,15), (1747177863,15), (1747070088,15), (1746962319,15), (1746854557,15), (1746746800,15), (1746639048,15), (1746531303,15), (1746423564,15),
    (1746315831,15), (1746208104,15), (1746100383,15), (1745992667,15), (1745884958,15), (1745777255,15), (1745669557,15), (1745561866,15), (1745454180,15), (1745346501,15), (1745238827,15), (1745131160,15), (1745023498,15), (1744915842,15), (1744808193,15), (1744700549,15),
    (1744592911,15), (1744485279,15), (1744377653,15), (1744270033,15), (1744162419,15), (1744054811,15), (1743947209,15), (1743839613,15), (1743732023,15), (1743624438,15), (1743516860,15), (1743409288,15), (1743301721,15), (1743194161,15), (1743086606,15), (1742979058,15),
    (1742871515,15), (1742763978,15), (1742656447,15), (1742548923,15), (1742441404,15), (1742333891,15), (1742226384,15), (1742118883,15), (1742011388,15), (1741903899,15), (1741796415,15), (1741688938,15), (1741581467,15), (1741474001,15), (1741366542,15), (1741259088,15),
    (1741151641,15), (1741044199,15), (1740936763,15), (1740829334,15), (1740721910,15), (1740614492,15), (1740507080,15), (1740399674,15), (1740292274,15), (1740184880,15), (1740077492,15), (1739970109,15), (1739862733,15), (1739755362,15), (1739647998,15), (1739540639,15),
    (1739433287,15), (1739325940,15), (1739218599,15), (1739111264,15), (1739003935,15), (1738896612,15), (1738789295,15), (1738681984,15), (1738574679,15), (1738467380,15), (1738360086,15), (1738252799,15), (1738145517,15), (1738038242,15), (1737930972,15), (1737823708,15),
    (1737716451,15), (1737609199,15), (1737501953,15), (1737394713,15), (1737287479,15), (1737180250,15), (1737073028,15), (1736965812,15), (1736858601,15), (1736751397,15), (1736644198,15), (1736537005,15), (1736429819,15), (1736322638,15), (1736215463,15), (1736108294,15),
    (1736001131,15), (1735893973,15), (1735786822,15), (1735679677,15), (1735572537,15), (1735465404,15), (1735358276,15), (1735251154,15), (1735144038,15), (1735036928,15), (1734929824,15), (1734822726,15), (1734715634,15), (1734608548,15), (1734501467,15), (1734394393,15),
    (1734287324,15), (1734180262,15), (1734073205,15), (1733966154,15), (1733859109,15), (1733752070,15), (1733645037,15), (1733538010,15), (1733430988,15), (1733323973,15), (1733216963,15), (1733109960,15), (1733002962,15), (1732895970,15), (1732788984,15), (1732682004,15),
    (1732575030,15), (1732468062,15), (1732361100,15), (1732254143,15), (1732147193,15), (1732040248,15), (1731933309,15), (1731826376,15), (1731719449,15), (1731612528,15), (1731505613,15), (1731398704,15), (1731291801,15), (1731184903,15), (1731078011,15), (1730971126,15),
    (1730864246,15), (1730757372,15), (1730650504,15), (1730543642,15), (1730436786,15), (1730329935,15), (1730223091,15), (1730116252,15), (1730009419,15), (1729902593,15), (1729795772,15), (1729688957,15), (1729582147,15), (1729475344,15), (1729368547,15), (1729261755,15),
    (1729154970,15), (1729048190,15), (1728941416,15), (1728834648,15), (1728727886,15), (1728621130,15), (1728514379,15), (1728407635,15), (1728300896,15), (1728194164,15), (1728087437,15), (1727980716,15), (1727874001,15), (1727767292,15), (1727660588,15), (1727553891,15),
    (1727447199,15), (1727340514,15), (1727233834,15), (1727127160,15), (1727020492,15), (1726913830,15), (1726807173,15), (1726700523,15), (1726593878,15), (1726487240,15), (1726380607,15), (1726273980,15), (1726167359,15), (1726060743,15), (1725954134,15), (1725847531,15),
    (1725740933,15), (1725634341,15), (1725527755,15), (1725421175,15), (1725314601,15), (1725208033,15), (1725101470,15), (1724994914,15), (1724888363,15), (1724781818,15), (1724675279,15), (1724568746,15), (1724462219,15), (1724355698,15), (1724249182,15), (1724142672,15),
    (1724036169,15), (1723929671,15), (1723823179,15), (1723716692,15), (1723610212,15), (1723503737,15), (1723397269,15), (1723290806,15), (1723184349,15), (1723077898,15), (1722971453,15), (1722865013,15), (1722758580,15), (1722652152,15), (1722545730,15), (1722439314,15),
    (1722332904,15), (1722226500,15), (1722120102,15), (1722013709,15), (1721907322,15), (1721800941,15), (1721694566,15), (1721588197,15), (1721481834,15), (1721375477,15), (1721269125,15), (1721162779,15), (1721056439,15), (1720950105,15), (1720843777,15), (1720737455,15),
    (1720631138,15), (1720524827,15), (1720418522,15), (1720312223,15), (1720205930,15), (1720099643,15), (1719993361,15), (1719887086,15), (1719780816,15), (1719674552,15), (1719568294,15), (1719462042,15), (1719355795,15), (1719249555,15), (1719143320,15), (1719037091,15),
    (1718930868,15), (1718824650,15), (1718718439,15), (1718612233,15), (1718506034,15), (1718399840,15), (1718293652,15), (1718187469,15), (1718081293,15), (1717975122,15), (1717868958,15), (1717762799,15), (1717656646,15), (1717550498,15), (1717444357,15), (1717338221,15),
    (1717232092,15), (1717125968,15), (1717019850,15), (1716913737,15), (1716807631,15), (1716701530,15), (1716595435,15), (1716489346,15), (1716383263,15), (1716277186,15), (1716171114,15), (1716065049,15), (1715958989,15), (1715852935,15), (1715746887,15), (1715640844,15),
    (1715534808,15), (1715428777,15), (1715322752,15), (1715216733,15), (1715110719,15), (1715004712,15), (1714898710,15), (1714792715,15), (1714686724,15), (1714580740,15), (1714474762,15), (1714368789,15), (1714262823,15), (1714156862,15), (1714050907,15), (1713944957,15),
    (1713839014,15), (1713733076,15), (1713627144,15), (1713521218,15), (1713415298,15), (1713309383,15), (1713203475,15), (1713097572,15), (1712991675,15), (1712885784,15), (1712779898,15), (1712674019,15), (1712568145,15), (1712462277,15), (1712356415,15), (1712250559,15),
    (1712144708,15), (1712038863,15), (1711933024,15), (1711827191,15), (1711721364,15), (1711615542,15), (1711509727,15), (1711403917,15), (1711298113,15), (1711192314,15), (1711086522,15), (1710980735,15), (1710874954,15), (1710769179,15), (1710663410,15), (1710557646,15),
    (1710451889,15), (1710346137,15), (1710240391,15), (1710134650,15), (1710028916,15), (1709923187,15), (1709817464,15), (1709711747,15), (1709606036,15), (1709500330,15), (1709394630,15), (1709288936,15), (1709183248,15), (1709077566,15), (1708971889,15), (1708866218,15),
    (1708760553,15), (1708654894,15), (1708549241,15), (1708443593,15), (1708337951,15), (1708232315,15), (1708126685,15), (1708021060,15), (1707915442,15), (1707809829,15), (1707704222,15), (1707598620,15), (1707493025,15), (1707387435,15), (1707281851,15), (1707176273,15),
    (1707070701,15), (1706965134,15), (1706859573,15), (1706754018,15), (1706648469,15), (1706542925,15), (1706437387,15), (1706331856,15), (1706226329,15), (1706120809,15), (1706015294,15), (1705909786,15), (1705804283,15), (1705698785,15), (1705593294,15), (1705487808,15),
    (1705382328,15), (1705276854,15), (1705171385,15), (1705065923,15), (1704960466,15), (1704855015,15), (1704749570,15), (1704644130,15), (1704538696,15), (1704433268,15), (1704327846,15), (1704222430,15), (1704117019,15), (1704011614,15), (1703906215,15), (1703800822,15),
    (1703695434,15), (1703590052,15), (1703484676,15), (1703379306,15), (1703273941,15), (1703168583,15), (1703063230,15), (1702957882,15), (1702852541,15), (1702747205,15), (1702641875,15), (1702536551,15), (1702431233,15), (1702325920,15), (1702220613,15), (1702115312,15),
    (1702010016,15), (1701904727,15), (1701799443,15), (1701694165,15), (1701588893,15), (1701483626,15), (1701378365,15), (1701273110,15), (1701167861,15), (1701062617,15), (1700957379,15), (1700852147,15), (1700746921,15), (1700641701,15), (1700536486,15), (1700431277,15),
    (1700326074,15), (1700220876,15), (1700115684,15), (1700010498,15), (1699905318,15), (1699800143,15), (1699694975,15), (1699589812,15), (1699484654,15), (1699379503,15), (1699274357,15), (1699169217,15), (1699064083,15), (1698958954,15), (1698853831,15), (1698748714,15),
    (1698643603,15), (1698538498,15), (1698433398,15), (1698328304,15), (1698223215,15), (1698118133,15), (1698013056,15), (1697907985,15), (1697802920,15), (1697697860,15), (1697592806,15), (1697487758,15), (1697382716,15), (1697277679,15), (1697172648,15), (1697067623,15),
    (1696962603,15), (1696857590,15), (1696752582,15), (1696647580,15), (1696542583,15), (1696437592,15), (1696332607,15), (1696227628,15), (1696122655,15), (1696017687,15), (1695912725,15), (1695807768,15), (1695702818,15), (1695597873,15), (1695492934,15), (1695388000,15),
    (1695283073,15), (1695178151,15), (1695073234,15), (1694968324,15), (1694863419,15), (1694758520,15), (1694653627,15), (1694548739,15), (1694443857,15), (1694338981,15), (1694234111,15), (1694129246,15), (1694024387,15), (1693919534,15), (1693814686,15), (1693709845,15),
    (1693605008,15), (1693500178,15), (1693395354,15), (1693290535,15), (1693185721,15), (1693080914,15), (1692976112,15), (1692871316,15), (1692766526,15), (1692661741,15), (1692556962,15), (1692452189,15), (1692347422,15), (1692242660,15), (1692137904,15), (1692033154,15),
    (1691928409,15), (1691823670,15), (1691718937,15), (1691614210,15), (1691509488,15), (1691404772,15), (1691300062,15), (1691195357,15), (1691090659,15), (1690985965,15), (1690881278,15), (1690776596,15), (1690671920,15), (1690567250,15), (1690462585,15), (1690357926,15),
    (1690253273,15), (1690148626,15), (1690043984,15), (1689939348,15), (1689834718,15), (1689730093,15), (1689625474,15), (1689520861,15), (1689416253,15), (1689311651,15), (1689207055,15), (1689102465,15), (1688997880,15), (1688893301,15), (1688788728,15), (1688684160,15),
    (1688579598,15), (1688475042,15), (1688370491,15), (1688265947,15), (1688161407,15), (1688056874,15), (1687952346,15), (1687847824,15), (1687743308,15), (1687638797,15), (1687534292,15), (1687429793,15), (1687325300,15), (1687220812,15), (1687116329,15), (1687011853,15),
    (1686907382,15), (1686802917,15), (1686698458,15), (1686594004,15), (1686489556,15), (1686385114,15), (1686280677,15), (1686176246,15), (1686071821,15), (1685967401,15), (1685862987,15), (1685758579,15), (1685654177,15), (1685549780,15), (1685445389,15), (1685341003,15),
    (1685236624,15), (1685132250,15), (1685027881,15), (1684923518,15), (1684819161,15), (1684714810,15), (1684610464,15), (1684506124,15), (1684401790,15), (1684297462,15), (1684193139,15), (1684088821,15), (1683984510,15), (1683880204,15), (1683775904,15), (1683671609,15),
    (1683567320,15), (1683463037,15), (1683358760,15), (1683254488,15), (1683150222,15), (1683045961,15), (1682941706,15), (1682837457,15), (1682733214,15), (1682628976,15), (1682524744,15), (1682420518,15), (1682316297,15), (1682212082,15), (1682107872,15), (1682003669,15),
    (1681899471,15), (1681795278,15), (1681691091,15), (1681586910,15), (1681482735,15), (1681378565,15), (1681274401,15), (1681170243,15), (1681066090,15), (1680961943,15), (1680857802,15), (1680753666,15), (1680649536,15), (1680545412,15), (1680441293,15), (1680337180,15),
    (1680233072,15), (1680128971,15), (1680024875,15), (1679920784,15), (1679816699,15), (1679712620,15), (1679608547,15), (1679504479,15), (1679400417,15), (1679296361,15), (1679192310,15), (1679088265,15), (1678984225,15), (1678880191,15), (1678776163,15), (1678672141,15),
    (1678568124,15), (1678464113,15), (1678360107,15), (1678256107,15), (1678152113,15), (1678048124,15), (1677944141,15), (1677840164,15), (1677736193,15), (1677632227,15), (1677528266,15), (1677424312,15), (1677320363,15), (1677216419,15), (1677112482,15), (1677008549,15),
    (1676904623,15), (1676800702,15), (1676696787,15), (1676592878,15), (1676488974,15), (1676385076,15), (1676281183,15), (1676177296,15), (1676073415,15), (1675969539,15), (1675865669,15), (1675761805,15), (1675657946,15), (1675554093,15), (1675450246,15), (1675346404,15),
    (1675242568,15), (1675138738,15), (1675034913,15), (1674931094,15), (1674827280,15), (1674723472,15), (1674619670,15), (1674515873,15), (1674412082,15), (1674308297,15), (1674204517,15), (1674100743,15), (1673996975,15), (1673893212,15), (1673789455,15), (1673685703,15),
    (1673581957,15), (1673478217,15), (1673374482,15), (1673270753,15), (1673167030,15), (1673063312,15), (1672959600,15), (1672855894,15), (1672752193,15), (1672648498,15), (1672544808,15), (1672441124,15), (1672337446,15), (1672233773,15), (1672130106,15), (1672026444,15),
    (1671922789,15), (1671819138,15), (1671715494,15), (1671611855,15), (1671508221,15), (1671404594,15), (1671300972,15), (1671197355,15), (1671093744,15), (1670990139,15), (1670886540,15), (1670782946,15), (1670679357,15), (1670575775,15), (1670472197,15), (1670368626,15),
    (1670265060,15), (1670161500,15), (1670057945,15), (1669954396,15), (1669850853,15), (1669747315,15), (1669643783,15), (1669540256,15), (1669436735,15), (1669333220,15), (1669229710,15), (1669126206,15), (1669022708,15), (1668919215,15), (1668815728,15), (1668712246,15),
    (1668608770,15), (1668505300,15), (1668401835,15), (1668298376,15), (1668194922,15), (1668091474,15), (1667988032,15), (1667884595,15), (1667781164,15), (1667677738,15), (1667574318,15), (1667470904,15), (1667367495,15), (1667264092,15), (1667160695,15), (1667057303,15),
    (1666953916,15), (1666850536,15), (1666747161,15), (1666643791,15), (1666540427,15), (1666437069,15), (1666333716,15), (1666230369,15), (1666127028,15), (1666023692,15), (1665920361,15), (1665817037,15), (1665713718,15), (1665610404,15), (1665507096,15), (1665403794,15),
    (1665300497,15), (1665197206,15), (1665093921,15), (1664990641,15), (1664887367,15), (1664784098,15), (1664680835,15), (1664577577,15), (1664474325,15), (1664371079,15), (1664267838,15), (1664164603,15), (1664061373,15), (1663958150,15), (1663854931,15), (1663751718,15),
    (1663648511,15), (1663545310,15), (1663442114,15), (1663338923,15), (1663235738,15), (1663132559,15), (1663029385,15), (1662926217,15), (1662823055,15), (1662719898,15), (1662616747,15), (1662513601,15), (1662410461,15), (1662307326,15), (1662204197,15), (1662101074,15),
    (1661997956,15), (1661894844,15), (1661791737,15), (1661688636,15), (1661585540,15), (1661482451,15), (1661379366,15), (1661276287,15), (1661173214,15), (1661070147,15), (1660967085,15), (1660864028,15), (1660760977,15), (1660657932,15), (1660554892,15), (1660451858,15),
    (1660348830,15), (1660245807,15), (1660142789,15), (1660039777,15), (1659936771,15), (1659833770,15), (1659730775,15), (1659627786,15), (1659524802,15), (1659421823,15), (1659318851,15), (1659215883,15), (1659112922,15), (1659009966,15), (1658907015,15), (1658804070,15),
    (1658701131,15), (1658598197,15), (1658495268,15), (1658392346,15), (1658289429,15), (1658186517,15), (1658083611,15), (1657980711,15), (1657877816,15), (1657774926,15), (1657672043,15), (1657569164,15), (1657466292,15), (1657363425,15), (1657260563,15), (1657157707,15),
    (1657054857,15), (1656952012,15), (1656849173,15), (1656746339,15), (1656643511,15), (1656540688,15), (1656437871,15), (1656335060,15), (1656232254,15), (1656129454,15), (1656026659,15), (1655923870,15), (1655821086,15), (1655718308,15), (1655615535,15), (1655512768,15),
    (1655410007,15), (1655307251,15), (1655204500,15), (1655101756,15), (1654999016,15), (1654896283,15), (1654793555,15), (1654690832,15), (1654588115,15), (1654485403,15), (1654382697,15), (1654279997,15), (1654177302,15), (1654074613,15), (1653971929,15), (1653869251,15),
    (1653766578,15), (1653663911,15), (1653561249,15), (1653458593,15), (1653355943,15), (1653253298,15), (1653150659,15), (1653048025,15), (1652945396,15), (1652842774,15), (1652740156,15), (1652637545,15), (1652534939,15), (1652432338,15), (1652329743,15), (1652227153,15),
    (1652124569,15), (1652021991,15), (1651919418,15), (1651816851,15), (1651714289,15), (1651611733,15), (1651509182,15), (1651406637,15), (1651304097,15), (1651201563,15), (1651099034,15), (1650996511,15), (1650893994,15), (1650791482,15), (1650688975,15), (1650586474,15),
    (1650483979,15), (1650381489,15), (1650279004,15), (1650176526,15), (1650074052,15), (1649971585,15), (1649869122,15), (1649766666,15), (1649664214,15), (1649561769,15), (1649459329,15), (1649356894,15), (1649254465,15), (1649152041,15), (1649049623,15), (1648947211,15),
    (1648844804,15), (1648742403,15), (1648640007,15), (1648537616,15), (1648435231,15), (1648332852,15), (1648230478,15), (1648128110,15), (1648025747,15), (1647923390,15), (1647821038,15), (1647718692,15), (1647616351,15), (1647514016,15), (1647411686,15), (1647309362,15),
    (1647207044,15), (1647104731,15), (1647002423,15), (1646900121,15), (1646797824,15), (1646695533,15), (1646593248,15), (1646490968,15), (1646388693,15), (1646286424,15), (1646184161,15), (1646081903,15), (1645979650,15), (1645877404,15), (1645775162,15), (1645672926,15),
    (1645570696,15), (1645468471,15), (1645366252,15), (1645264038,15), (1645161829,15), (1645059627,15), (1644957429,15), (1644855237,15), (1644753051,15), (1644650870,15), (1644548695,15), (1644446525,15), (1644344361,15), (1644242202,15), (1644140049,15), (1644037901,15),
    (1643935759,15), (1643833622,15), (1643731491,15), (1643629365,15), (1643527245,15), (1643425130,15), (1643323020,15), (1643220917,15), (1643118818,15), (1643016726,15), (1642914638,15), (1642812557,15), (1642710480,15), (1642608410,15), (1642506344,15), (1642404285,15),
    (1642302230,15), (1642200181,15), (1642098138,15), (1641996100,15), (1641894068,15), (1641792041,15), (1641690020,15), (1641588004,15), (1641485994,15), (1641383989,15), (1641281990,15), (1641179996,15), (1641078007,15), (1640976025,15), (1640874047,15), (1640772075,15),
    (1640670109,15), (1640568148,15), (1640466192,15), (1640364243,15), (1640262298,15), (1640160359,15), (1640058426,15), (1639956498,15), (1639854575,15), (1639752658,15), (1639650747,15), (1639548841,15), (1639446940,15), (1639345045,15), (1639243155,15), (1639141271,15),
    (1639039393,15), (1638937519,15), (1638835652,15), (1638733790,15), (1638631933,15), (1638530082,15), (1638428236,15), (1638326396,15), (1638224561,15), (1638122732,15), (1638020908,15), (1637919089,15), (1637817277,15), (1637715469,15), (1637613667,15), (1637511871,15),
    (1637410080,15), (1637308294,15), (1637206514,15), (1637104740,15), (1637002971,15), (1636901207,15), (1636799449,15), (1636697696,15), (1636595949,15), (1636494207,15), (1636392471,15), (1636290740,15), (1636189015,15), (1636087295,15), (1635985581,15), (1635883872,15),
    (1635782169,15), (1635680471,15), (1635578778,15), (1635477091,15), (1635375409,15), (1635273733,15), (1635172063,15), (1635070398,15), (1634968738,15), (1634867084,15), (1634765435,15), (1634663792,15), (1634562154,15), (1634460521,15), (1634358894,15), (1634257273,15),
    (1634155657,15), (1634054046,15), (1633952441,15), (1633850842,15), (1633749248,15), (1633647659,15), (1633546076,15), (1633444498,15), (1633342926,15), (1633241359,15), (1633139797,15), (1633038241,15), (1632936691,15), (1632835146,15), (1632733606,15), (1632632072,15),
    (1632530543,15), (1632429020,15), (1632327502,15), (1632225990,15), (1632124483,15), (1632022982,15), (1631921486,15), (1631819995,15), (1631718510,15), (1631617031,15), (1631515556,15), (1631414088,15), (1631312625,15), (1631211167,15), (1631109714,15), (1631008267,15),
    (1630906826,15), (1630805390,15), (1630703959,15), (1630602534,15), (1630501115,15), (1630399700,15), (1630298291,15), (1630196888,15), (1630095490,15), (1629994098,15), (1629892711,15), (1629791329,15), (1629689953,15), (1629588582,15), (1629487217,15), (1629385857,15),
    (1629284503,15), (1629183154,15), (1629081810,15), (1628980472,15), (1628879140,15), (1628777813,15), (1628676491,15), (1628575175,15), (1628473864,15), (1628372558,15), (1628271258,15), (1628169964,15), (1628068675,15), (1627967391,15), (1627866113,15), (1627764840,15),
    (1627663572,15), (1627562310,15), (1627461054,15), (1627359803,15), (1627258557,15), (1627157317,15), (1627056082,15), (1626954853,15), (1626853629,15), (1626752410,15), (1626651197,15), (1626549989,15), (1626448787,15), (1626347590,15), (1626246399,15), (1626145213,15),
    (1626044033,15), (1625942857,15), (1625841688,15), (1625740524,15), (1625639365,15), (1625538211,15), (1625437063,15), (1625335921,15), (1625234784,15), (1625133652,15), (1625032526,15), (1624931405,15), (1624830289,15), (1624729179,15), (1624628075,15), (1624526976,15),
    (1624425882,15), (1624324793,15), (1624223710,15), (1624122633,15), (1624021561,15), (1623920494,15), (1623819433,15), (1623718377,15), (1623617327,15), (1623516282,15), (1623415242,15), (1623314208,15), (1623213179,15), (1623112156,15), (1623011138,15), (1622910125,15),
    (1622809118,15), (1622708116,15), (1622607120,15), (1622506129,15), (1622405144,15), (1622304164,15), (1622203189,15), (1622102220,15), (1622001256,15), (1621900298,15), (1621799345,15), (1621698397,15), (1621597455,15), (1621496518,15), (1621395586,15), (1621294660,15),
    (1621193740,15), (1621092825,15), (1620991915,15), (1620891011,15), (1620790112,15), (1620689218,15), (1620588330,15), (1620487447,15), (1620386570,15), (1620285698,15), (1620184831,15), (1620083970,15), (1619983114,15), (1619882264,15), (1619781419,15), (1619680579,15),
    (1619579745,15), (1619478917,15), (1619378093,15), (1619277275,15), (1619176463,15), (1619075655,15), (1618974854,15), (1618874057,15), (1618773266,15), (1618672481,15), (1618571701,15), (1618470926,15), (1618370156,15), (1618269392,15), (1618168634,15), (1618067880,15),
    (1617967133,15), (1617866390,15), (1617765653,15), (1617664921,15), (1617564195,15), (1617463474,15), (1617362759,15), (1617262049,15), (1617161344,15), (1617060644,15), (1616959951,15), (1616859262,15), (1616758579,15), (1616657901,15), (1616557229,15), (1616456562,15),
    (1616355900,15), (1616255244,15), (1616154593,15), (1616053947,15), (1615953307,15), (1615852672,15), (1615752043,15), (1615651419,15), (1615550801,15), (1615450187,15), (1615349579,15), (1615248977,15), (1615148380,15), (1615047788,15), (1614947202,15), (1614846621,15),
    (1614746045,15), (1614645475,15), (1614544911,15), (1614444351,15), (1614343797,15), (1614243248,15), (1614142705,15), (1614042167,15), (1613941635,15), (1613841107,15), (1613740586,15), (1613640069,15), (1613539558,15), (1613439052,15), (1613338552,15), (1613238057,15),
    (1613137568,15), (1613037083,15), (1612936605,15), (1612836131,15), (1612735663,15), (1612635200,15), (1612534743,15), (1612434291,15), (1612333844,15), (1612233403,15), (1612132967,15), (1612032537,15), (1611932112,15), (1611831692,15), (1611731277,15), (1611630868,15),
    (1611530465,15), (1611430066,15), (1611329673,15), (1611229286,15), (1611128903,15), (1611028526,15), (1610928155,15), (1610827789,15), (1610727428,15), (1610627073,15), (1610526722,15), (1610426378,15), (1610326038,15), (1610225704,15), (1610125376,15), (1610025052,15),
    (1609924734,15), (1609824422,15), (1609724115,15), (1609623813,15), (1609523516,15), (1609423225,15), (1609322939,15), (1609222659,15), (1609122384,15), (1609022114,15), (1608921850,15), (1608821591,15), (1608721337,15), (1608621089,15), (1608520846,15), (1608420608,15),
    (1608320376,15), (1608220149,15), (1608119927,15), (1608019711,15), (1607919500,15), (1607819294,15), (1607719094,15), (1607618899,15), (1607518710,15), (1607418526,15), (1607318347,15), (1607218173,15), (1607118005,15), (1607017843,15), (1606917685,15), (1606817533,15),
    (1606717386,15), (1606617245,15), (1606517109,15), (1606416978,15), (1606316853,15), (1606216733,15), (1606116618,15), (1606016509,15), (1605916405,15), (1605816306,15), (1605716213,15), (1605616125,15), (1605516042,15), (1605415965,15), (1605315893,15), (1605215826,15),
    (1605115765,15), (1605015709,15), (1604915658,15), (1604815613,15), (1604715573,15), (1604615538,15), (1604515509,15), (1604415485,15), (1604315466,15), (1604215453,15), (1604115445,15), (1604015442,15), (1603915445,15), (1603815453,15), (1603715466,15), (1603615485,15),
    (1603515509,15), (1603415538,15), (1603315573,15), (1603215613,15), (1603115658,15), (1603015709,15), (1602915765,15), (1602815826,15), (1602715893,15), (1602615965,15), (1602516042,15), (1602416125,15), (1602316213,15), (1602216306,15), (1602116405,15), (1602016508,15),
    (1601916618,15), (1601816732,15), (1601716852,15), (1601616977,15), (1601517108,15), (1601417244,15), (1601317385,15), (1601217531,15), (1601117683,15), (1601017840,15), (1600918003,15), (1600818170,15), (1600718343,15), (1600618522,15), (1600518706,15), (1600418895,15),
    (1600319089,15), (1600219288,15), (1600119493,15), (1600019704,15), (1599919919,15), (1599820140,15), (1599720366,15), (1599620598,15), (1599520835,15), (1599421077,15), (1599321324,15), (1599221577,15), (1599121835,15), (1599022099,15), (1598922367,15), (1598822641,15),
    (1598722921,15), (1598623205,15), (1598523495,15), (1598423791,15), (1598324091,15), (1598224397,15), (1598124708,15), (1598025025,15), (1597925346,15), (1597825674,15), (1597726006,15), (1597626344,15), (1597526687,15), (1597427035,15), (1597327389,15), (1597227747,15),
    (1597128112,15), (1597028481,15), (1596928856,15), (1596829236,15), (1596729622,15), (1596630012,15), (1596530408,15), (1596430810,15), (1596331216,15), (1596231628,15), (1596132045,15), (1596032468,15), (1595932896,15), (1595833329,15), (1595733767,15), (1595634211,15),
    (1595534660,15), (1595435114,15), (1595335574,15), (1595236039,15), (1595136509,15), (1595036984,15), (1594937465,15), (1594837951,15), (1594738442,15), (1594638939,15), (1594539441,15), (1594439948,15), (1594340461,15), (1594240978,15), (1594141502,15), (1594042030,15),
    (1593942564,15), (1593843103,15), (1593743647,15), (1593644196,15), (1593544751,15), (1593445311,15), (1593345877,15), (1593246447,15), (1593147023,15), (1593047604,15), (1592948191,15), (1592848783,15), (1592749380,15), (1592649982,15), (1592550590,15), (1592451203,15),
    (1592351821,15), (1592252445,15), (1592153073,15), (1592053707,15), (1591954347,15), (1591854991,15), (1591755641,15), (1591656297,15), (1591556957,15), (1591457623,15), (1591358294,15), (1591258970,15), (1591159652,15), (1591060339,15), (1590961031,15), (1590861728,15),
    (1590762431,15), (1590663139,15), (1590563852,15), (1590464570,15), (1590365294,15), (1590266023,15), (1590166758,15), (1590067497,15), (1589968242,15), (1589868992,15), (1589769748,15), (1589670508,15), (1589571274,15), (1589472046,15), (1589372822,15), (1589273604,15),
    (1589174391,15), (1589075183,15), (1588975981,15), (1588876784,15), (1588777592,15), (1588678405,15), (1588579224,15), (1588480048,15), (1588380877,15), (1588281711,15), (1588182551,15), (1588083396,15), (1587984246,15), (1587885101,15), (1587785962,15), (1587686828,15),
    (1587587700,15), (1587488576,15), (1587389458,15), (1587290345,15), (1587191237,15), (1587092135,15), (1586993038,15), (1586893946,15), (1586794859,15), (1586695778,15), (1586596702,15), (1586497631,15), (1586398565,15), (1586299505,15), (1586200450,15), (1586101400,15),
    (1586002355,15), (1585903316,15), (1585804282,15), (1585705253,15), (1585606229,15), (1585507211,15), (1585408198,15), (1585309190,15), (1585210188,15), (1585111190,15), (1585012198,15), (1584913211,15), (1584814230,15), (1584715253,15), (1584616282,15), (1584517317,15),
    (1584418356,15), (1584319401,15), (1584220451,15), (1584121506,15), (1584022566,15), (1583923632,15), (1583824703,15), (1583725779,15), (1583626860,15), (1583527947,15), (1583429039,15), (1583330136,15), (1583231238,15), (1583132346,15), (1583033459,15), (1582934577,15),
    (1582835700,15), (1582736829,15), (1582637963,15), (1582539102,15), (1582440246,15), (1582341396,15), (1582242550,15), (1582143711,15), (1582044876,15), (1581946046,15), (1581847222,15), (1581748403,15), (1581649589,15), (1581550781,15), (1581451977,15), (1581353179,15),
    (1581254387,15), (1581155599,15), (1581056817,15), (1580958039,15), (1580859267,15), (1580760501,15), (1580661739,15), (1580562983,15), (1580464232,15), (1580365486,15), (1580266746,15), (1580168011,15), (1580069281,15), (1579970556,15), (1579871836,15), (1579773122,15),
    (1579674413,15), (1579575709,15), (1579477010,15), (1579378317,15), (1579279629,15), (1579180946,15), (1579082268,15), (1578983595,15), (1578884928,15), (1578786266,15), (1578687609,15), (1578588957,15), (1578490311,15), (1578391670,15), (1578293034,15), (1578194403,15),
    (1578095777,15), (1577997157,15), (1577898542,15), (1577799932,15), (1577701327,15), (1577602728,15), (1577504134,15), (1577405545,15), (1577306961,15), (1577208383,15), (1577109809,15), (1577011241,15), (1576912678,15), (1576814121,15), (1576715568,15), (1576617021,15),
    (1576518479,15), (1576419942,15), (1576321410,15), (1576222884,15), (1576124363,15), (1576025847,15), (1575927336,15), (1575828830,15), (1575730330,15), (1575631835,15), (1575533345,15), (1575434860,15), (1575336381,15), (1575237907,15), (1575139438,15), (1575040974,15),
    (1574942515,15), (1574844062,15), (1574745613,15), (1574647170,15), (1574548733,15), (1574450300,15), (1574351873,15), (1574253450,15), (1574155033,15), (1574056622,15), (1573958215,15), (1573859814,15), (1573761417,15), (1573663026,15), (1573564641,15), (1573466260,15),
    (1573367885,15), (1573269515,15), (1573171150,15), (1573072790,15), (1572974435,15), (1572876086,15), (1572777742,15), (1572679403,15), (1572581069,15), (1572482740,15), (1572384417,15), (1572286099,15), (1572187786,15), (1572089478,15), (1571991176,15), (1571892878,15),
    (1571794586,15), (1571696299,15), (1571598017,15), (1571499741,15), (1571401469,15), (1571303203,15), (1571204942,15), (1571106686,15), (1571008435,15), (1570910190,15), (1570811950,15), (1570713715,15), (1570615485,15), (1570517260,15), (1570419041,15), (1570320826,15),
    (1570222617,15), (1570124413,15), (1570026214,15), (1569928021,15), (1569829833,15), (1569731649,15), (1569633471,15), (1569535299,15), (1569437131,15), (1569338969,15), (1569240811,15), (1569142659,15), (1569044512,15), (1568946371,15), (1568848234,15), (1568750103,15),
    (1568651977,15), (1568553856,15), (1568455740,15), (1568357629,15), (1568259524,15), (1568161424,15), (1568063328,15), (1567965239,15), (1567867154,15), (1567769074,15), (1567671000,15), (1567572931,15), (1567474867,15), (1567376808,15), (1567278754,15), (1567180706,15),
    (1567082663,15), (1566984624,15), (1566886591,15), (1566788564,15), (1566690541,15), (1566592524,15), (1566494511,15), (1566396504,15), (1566298502,15), (1566200506,15), (1566102514,15), (1566004528,15), (1565906547,15), (1565808571,15), (1565710600,15), (1565612634,15),
    (1565514673,15), (1565416718,15), (1565318768,15), (1565220823,15), (1565122883,15), (1565024948,15), (1564927019,15), (1564829094,15), (1564731175,15), (1564633261,15), (1564535352,15), (1564437449,15), (1564339550,15), (1564241657,15), (1564143768,15), (1564045885,15),
    (1563948007,15), (1563850135,15), (1563752267,15), (1563654405,15), (1563556548,15), (1563458695,15), (1563360849,15), (1563263007,15), (1563165170,15), (1563067339,15), (1562969512,15), (1562871691,15), (1562773875,15), (1562676065,15), (1562578259,15), (1562480458,15),
    (1562382663,15), (1562284873,15), (1562187088,15), (1562089308,15), (1561991533,15), (1561893764,15), (1561795999,15), (1561698240,15), (1561600486,15), (1561502737,15), (1561404993,15), (1561307254,15), (1561209521,15), (1561111793,15), (1561014069,15), (1560916351,15),
    (1560818638,15), (1560720931,15), (1560623228,15), (1560525531,15), (1560427838,15), (1560330151,15), (1560232469,15), (1560134792,15), (1560037121,15), (1559939454,15), (1559841793,15), (1559744136,15), (1559646485,15), (1559548839,15), (1559451198,15), (1559353563,15),
    (1559255932,15), (1559158307,15), (1559060686,15), (1558963071,15), (1558865461,15), (1558767856,15), (1558670257,15), (1558572662,15), (1558475073,15), (1558377488,15), (1558279909,15), (1558182335,15), (1558084766,15), (1557987203,15), (1557889644,15), (1557792090,15),
    (1557694542,15), (1557596999,15), (1557499461,15), (1557401928,15), (1557304400,15), (1557206878,15), (1557109360,15), (1557011848,15), (1556914340,15), (1556816838,15), (1556719341,15), (1556621849,15), (1556524363,15), (1556426881,15), (1556329405,15), (1556231933,15),
    (1556134467,15), (1556037006,15), (1555939550,15), (1555842099,15), (1555744654,15), (1555647213,15), (1555549778,15), (1555452347,15), (1555354922,15), (1555257502,15), (1555160087,15), (1555062677,15), (1554965273,15), (1554867873,15), (1554770479,15), (1554673089,15),
    (1554575705,15), (1554478326,15), (1554380952,15), (1554283583,15), (1554186220,15), (1554088861,15), (1553991508,15), (1553894159,15), (1553796816,15), (1553699478,15), (1553602145,15), (1553504817,15), (1553407495,15), (1553310177,15), (1553212865,15), (1553115557,15),
    (1553018255,15), (1552920958,15), (1552823666,15), (1552726379,15), (1552629097,15), (1552531820,15), (1552434549,15), (1552337282,15), (1552240021,15), (1552142765,15), (1552045514,15), (1551948268,15), (1551851027,15), (1551753791,15), (1551656561,15), (1551559335,15),
    (1551462115,15), (1551364899,15), (1551267689,15), (1551170484,15), (1551073284,15), (1550976089,15), (1550878899,15), (1550781715,15), (1550684535,15), (1550587361,15), (1550490191,15), (1550393027,15), (1550295868,15), (1550198714,15), (1550101565,15), (1550004421,15),
    (1549907282,15), (1549810149,15), (1549713020,15), (1549615897,15), (1549518779,15), (1549421665,15), (1549324557,15), (1549227454,15), (1549130356,15), (1549033264,15), (1548936176,15), (1548839093,15), (1548742016,15), (1548644943,15), (1548547876,15), (1548450814,15),
    (1548353757,15), (1548256705,15), (1548159658,15), (1548062616,15), (1547965579,15), (1547868548,15), (1547771521,15), (1547674500,15), (1547577483,15), (1547480472,15), (1547383466,15), (1547286465,15), (1547189469,15), (1547092478,15), (1546995492,15), (1546898512,15),
    (1546801536,15), (1546704566,15), (1546607600,15), (1546510640,15), (1546413685,15), (1546316735,15), (1546219789,15), (1546122850,15), (1546025915,15), (1545928985,15), (1545832060,15), (1545735141,15), (1545638226,15), (1545541317,15), (1545444412,15), (1545347513,15),
    (1545250619,15), (1545153730,15), (1545056846,15), (1544959967,15), (1544863093,15), (1544766224,15), (1544669360,15), (1544572502,15), (1544475648,15), (1544378800,15), (1544281956,15), (1544185118,15), (1544088285,15), (1543991457,15), (1543894634,15), (1543797816,15),
    (1543701003,15), (1543604195,15), (1543507393,15), (1543410595,15), (1543313802,15), (1543217015,15), (1543120232,15), (1543023455,15), (1542926683,15), (1542829916,15), (1542733153,15), (1542636396,15), (1542539644,15), (1542442898,15), (1542346156,15), (1542249419,15),
    (1542152687,15), (1542055961,15), (1541959239,15), (1541862523,15), (1541765811,15), (1541669105,15), (1541572404,15), (1541475708,15), (1541379016,15), (1541282330,15), (1541185649,15), (1541088974,15), (1540992303,15), (1540895637,15), (1540798976,15), (1540702321,15),
    (1540605670,15), (1540509024,15), (1540412384,15), (1540315749,15), (1540219118,15), (1540122493,15), (1540025873,15), (1539929258,15), (1539832648,15), (1539736043,15), (1539639443,15), (1539542848,15), (1539446258,15), (1539349673,15), (1539253094,15), (1539156519,15),
    (1539059949,15), (1538963385,15), (1538866825,15), (1538770271,15), (1538673722,15), (1538577177,15), (1538480638,15), (1538384104,15), (1538287575,15), (1538191051,15), (1538094532,15), (1537998018,15), (1537901509,15), (1537805005,15), (1537708506,15), (1537612013,15),
    (1537515524,15), (1537419040,15), (1537322562,15), (1537226088,15), (1537129620,15), (1537033156,15), (1536936698,15), (1536840245,15), (1536743796,15), (1536647353,15), (1536550915,15), (1536454482,15), (1536358054,15), (1536261631,15), (1536165213,15), (1536068800,15),
    (1535972392,15), (1535875989,15), (1535779591,15), (1535683199,15), (1535586811,15), (1535490428,15), (1535394051,15), (1535297678,15), (1535201311,15), (1535104948,15), (1535008591,15), (1534912238,15), (1534815891,15), (1534719549,15), (1534623211,15), (1534526879,15),
    (1534430552,15), (1534334230,15), (1534237913,15), (1534141601,15), (1534045293,15), (1533948991,15), (1533852695,15), (1533756403,15), (1533660116,15), (1533563834,15), (1533467557,15), (1533371285,15), (1533275019,15), (1533178757,15), (1533082500,15), (1532986249,15),
    (1532890002,15), (1532793760,15), (1532697524,15), (1532601292,15), (1532505066,15), (1532408844,15), (1532312628,15), (1532216417,15), (1532120210,15), (1532024009,15), (1531927813,15), (1531831622,15), (1531735435,15), (1531639254,15), (1531543078,15), (1531446907,15),
    (1531350741,15), (1531254580,15), (1531158424,15), (1531062273,15), (1530966127,15), (1530869986,15), (1530773850,15), (1530677719,15), (1530581593,15), (1530485472,15), (1530389356,15), (1530293245,15), (1530197139,15), (1530101039,15), (1530004943,15), (1529908852,15),
    (1529812766,15), (1529716686,15), (1529620610,15), (1529524539,15), (1529428474,15), (1529332413,15), (1529236358,15), (1529140307,15), (1529044261,15), (1528948221,15), (1528852185,15), (1528756155,15), (1528660129,15), (1528564109,15), (1528468093,15), (1528372083,15),
    (1528276078,15), (1528180077,15), (1528084082,15), (1527988091,15), (1527892106,15), (1527796126,15), (1527700150,15), (1527604180,15), (1527508215,15), (1527412254,15), (1527316299,15), (1527220349,15), (1527124404,15), (1527028463,15), (1526932528,15), (1526836598,15),
    (1526740673,15), (1526644752,15), (1526548837,15), (1526452927,15), (1526357022,15), (1526261121,15), (1526165226,15), (1526069336,15), (1525973451,15), (1525877571,15), (1525781696,15), (1525685825,15), (1525589960,15), (1525494100,15), (1525398245,15), (1525302395,15),
    (1525206550,15), (1525110710,15), (1525014874,15), (1524919044,15), (1524823219,15), (1524727399,15), (1524631584,15), (1524535774,15), (1524439969,15), (1524344168,15), (1524248373,15), (1524152583,15), (1524056798,15), (1523961018,15), (1523865243,15), (1523769473,15),
    (1523673707,15), (1523577947,15), (1523482192,15), (1523386442,15), (1523290697,15), (1523194956,15), (1523099221,15), (1523003491,15), (1522907766,15), (1522812046,15), (1522716330,15), (1522620620,15), (1522524915,15), (1522429215,15), (1522333520,15), (1522237829,15),
    (1522142144,15), (1522046464,15), (1521950788,15), (1521855118,15), (1521759453,15), (1521663792,15), (1521568137,15), (1521472487,15), (1521376841,15), (1521281201,15), (1521185566,15), (1521089935,15), (1520994310,15), (1520898689,15), (1520803074,15), (1520707463,15),
    (1520611858,15), (1520516258,15), (1520420662,15), (1520325071,15), (1520229486,15), (1520133905,15), (1520038330,15), (1519942759,15), (1519847194,15), (1519751633,15), (1519656077,15), (1519560527,15), (1519464981,15), (1519369440,15), (1519273904,15), (1519178374,15),
    (1519082848,15), (1518987327,15), (1518891811,15), (1518796300,15), (1518700794,15), (1518605293,15), (1518509798,15), (1518414307,15), (1518318821,15), (1518223340,15), (1518127864,15), (1518032392,15), (1517936926,15), (1517841465,15), (1517746009,15), (1517650558,15),
    (1517555112,15), (1517459671,15), (1517364234,15), (1517268803,15), (1517173377,15), (1517077955,15), (1516982539,15), (1516887127,15), (1516791721,15), (1516696320,15), (1516600923,15), (1516505532,15), (1516410145,15), (1516314763,15), (1516219387,15), (1516124015,15),
    (1516028648,15), (1515933287,15), (1515837930,15), (1515742578,15), (1515647231,15), (1515551889,15), (1515456552,15), (1515361220,15), (1515265893,15), (1515170571,15), (1515075254,15), (1514979942,15), (1514884635,15), (1514789333,15), (1514694035,15), (1514598743,15),
    (1514503456,15), (1514408173,15), (1514312896,15), (1514217624,15), (1514122356,15), (1514027094,15), (1513931836,15), (1513836583,15), (1513741336,15), (1513646093,15), (1513550855,15), (1513455622,15), (1513360395,15), (1513265172,15), (1513169954,15), (1513074741,15),
    (1512979533,15), (1512884330,15), (1512789132,15), (1512693938,15), (1512598750,15), (1512503567,15), (1512408389,15), (1512313215,15), (1512218047,15), (1512122883,15), (1512027725,15), (1511932571,15), (1511837423,15), (1511742279,15), (1511647140,15), (1511552006,15),
    (1511456878,15), (1511361754,15), (1511266635,15), (1511171521,15), (1511076412,15), (1510981308,15), (1510886208,15), (1510791114,15), (1510696025,15), (1510600941,15), (1510505861,15), (1510410787,15), (1510315717,15), (1510220653,15), (1510125593,15), (1510030538,15),
    (1509935489,15), (1509840444,15), (1509745404,15), (1509650369,15), (1509555339,15), (1509460314,15), (1509365294,15), (1509270279,15), (1509175268,15), (1509080263,15), (1508985263,15), (1508890267,15), (1508795277,15), (1508700291,15), (1508605311,15), (1508510335,15),
    (1508415364,15), (1508320398,15), (1508225438,15), (1508130482,15), (1508035531,15), (1507940584,15), (1507845643,15), (1507750707,15), (1507655776,15), (1507560849,15), (1507465928,15), (1507371012,15), (1507276100,15), (1507181193,15), (1507086292,15), (1506991395,15),
    (1506896503,15), (1506801616,15), (1506706734,15), (1506611857,15), (1506516985,15), (1506422118,15), (1506327255,15), (1506232398,15), (1506137546,15), (1506042698,15), (1505947855,15), (1505853018,15), (1505758185,15), (1505663357,15), (1505568534,15), (1505473716,15),
    (1505378903,15), (1505284095,15), (1505189292,15), (1505094494,15), (1504999700,15), (1504904912,15), (1504810128,15), (1504715350,15), (1504620576,15), (1504525807,15), (1504431043,15), (1504336284,15), (1504241530,15), (1504146781,15), (1504052037,15), (1503957298,15),
    (1503862563,15), (1503767834,15), (1503673110,15), (1503578390,15), (1503483675,15), (1503388965,15), (1503294261,15), (1503199561,15), (1503104866,15), (1503010175,15), (1502915490,15), (1502820810,15), (1502726135,15), (1502631464,15), (1502536798,15), (1502442138,15),
    (1502347482,15), (1502252831,15), (1502158185,15), (1502063544,15), (1501968908,15), (1501874277,15), (1501779651,15), (1501685029,15), (1501590413,15), (1501495801,15), (1501401194,15), (1501306593,15), (1501211996,15), (1501117404,15), (1501022817,15), (1500928235,15),
    (1500833657,15), (1500739085,15), (1500644518,15), (1500549955,15), (1500455397,15), (1500360845,15), (1500266297,15), (1500171754,15), (1500077216,15), (1499982683,15), (1499888155,15), (1499793631,15), (1499699113,15), (1499604599,15), (1499510091,15), (1499415587,15),
    (1499321088,15), (1499226594,15), (1499132105,15), (1499037621,15), (1498943142,15), (1498848667,15), (1498754198,15), (1498659733,15), (1498565274,15), (1498470819,15), (1498376369,15), (1498281924,15), (1498187484,15), (1498093049,15), (1497998618,15), (1497904193,15),
    (1497809772,15), (1497715357,15), (1497620946,15), (1497526540,15), (1497432139,15), (1497337743,15), (1497243352,15), (1497148966,15), (1497054584,15), (1496960208,15), (1496865836,15), (1496771469,15), (1496677107,15), (1496582750,15), (1496488398,15), (1496394051,15),
    (1496299709,15), (1496205371,15), (1496111039,15), (1496016711,15), (1495922388,15), (1495828071,15), (1495733758,15), (1495639449,15), (1495545146,15), (1495450848,15), (1495356554,15), (1495262266,15), (1495167982,15), (1495073703,15), (1494979429,15), (1494885160,15),
    (1494790896,15), (1494696637,15), (1494602382,15), (1494508133,15), (1494413888,15), (1494319648,15), (1494225413,15), (1494131183,15), (1494036958,15), (1493942738,15), (1493848522,15), (1493754312,15), (1493660106,15), (1493565905,15), (1493471709,15), (1493377518,15),
    (1493283332,15), (1493189151,15), (1493094974,15), (1493000803,15), (1492906636,15), (1492812474,15), (1492718317,15), (1492624165,15), (1492530018,15), (1492435875,15), (1492341738,15), (1492247605,15), (1492153478,15), (1492059355,15), (1491965237,15), (1491871124,15),
    (1491777015,15), (1491682912,15), (1491588813,15), (1491494720,15), (1491400631,15), (1491306547,15), (1491212468,15), (1491118394,15), (1491024324,15), (1490930260,15), (1490836200,15), (1490742146,15), (1490648096,15), (1490554051,15), (1490460011,15), (1490365975,15),
    (1490271945,15), (1490177919,15), (1490083899,15), (1489989883,15), (1489895872,15), (1489801866,15), (1489707864,15), (1489613868,15), (1489519876,15), (1489425890,15), (1489331908,15), (1489237931,15), (1489143959,15), (1489049991,15), (1488956029,15), (1488862071,15),
    (1488768119,15), (1488674171,15), (1488580228,15), (1488486290,15), (1488392356,15), (1488298428,15), (1488204504,15), (1488110586,15), (1488016672,15), (1487922763,15), (1487828858,15), (1487734959,15), (1487641065,15), (1487547175,15), (1487453290,15), (1487359410,15),
    (1487265535,15), (1487171665,15), (1487077800,15), (1486983939,15), (1486890083,15), (1486796233,15), (1486702387,15), (1486608545,15), (1486514709,15), (1486420878,15), (1486327051,15), (1486233229,15), (1486139412,15), (1486045600,15), (1485951793,15), (1485857991,15),
    (1485764193,15), (1485670400,15), (1485576613,15), (1485482830,15), (1485389051,15), (1485295278,15), (1485201510,15), (1485107746,15), (1485013987,15), (1484920233,15), (1484826484,15), (1484732740,15), (1484639000,15), (1484545266,15), (1484451536,15), (1484357811,15),
    (1484264091,15), (1484170376,15), (1484076665,15), (1483982960,15), (1483889259,15), (1483795563,15), (1483701872,15), (1483608186,15), (1483514504,15), (1483420827,15), (1483327156,15), (1483233489,15), (1483139827,15), (1483046169,15), (1482952517,15), (1482858869,15),
    (1482765227,15), (1482671589,15), (1482577956,15), (1482484327,15), (1482390704,15), (1482297085,15), (1482203472,15), (1482109863,15), (1482016259,15), (1481922659,15), (1481829065,15), (1481735475,15), (1481641890,15), (1481548310,15), (1481454735,15), (1481361165,15),
    (1481267599,15), (1481174039,15), (1481080483,15), (1480986932,15), (1480893385,15), (1480799844,15), (1480706308,15), (1480612776,15), (1480519249,15), (1480425727,15), (1480332209,15), (1480238697,15), (1480145189,15), (1480051687,15), (1479958189,15), (1479864695,15),
    (1479771207,15), (1479677723,15), (1479584245,15), (1479490771,15), (1479397302,15), (1479303837,15), (1479210378,15), (1479116923,15), (1479023474,15), (1478930029,15), (1478836588,15), (1478743153,15), (1478649722,15), (1478556297,15), (1478462876,15), (1478369460,15),
    (1478276048,15), (1478182642,15), (1478089240,15), (1477995843,15), (1477902451,15), (1477809064,15), (1477715682,15), (1477622304,15), (1477528931,15), (1477435563,15), (1477342200,15), (1477248842,15), (1477155488,15), (1477062139,15), (1476968795,15), (1476875456,15),
    (1476782122,15), (1476688792,15), (1476595468,15), (1476502148,15), (1476408833,15), (1476315522,15), (1476222217,15), (1476128916,15), (1476035620,15), (1475942329,15), (1475849043,15), (1475755761,15), (1475662485,15), (1475569213,15), (1475475946,15), (1475382683,15),
    (1475289426,15), (1475196173,15), (1475102925,15), (1475009682,15), (1474916444,15), (1474823211,15), (1474729982,15), (1474636758,15), (1474543539,15), (1474450325,15), (1474357115,15), (1474263910,15), (1474170711,15), (1474077515,15), (1473984325,15), (1473891140,15),
    (1473797959,15), (1473704783,15), (1473611612,15), (1473518446,15), (1473425284,15), (1473332127,15), (1473238975,15), (1473145828,15), (1473052686,15), (1472959548,15), (1472866416,15), (1472773288,15), (1472680165,15), (1472587046,15), (1472493933,15), (1472400824,15),
    (1472307720,15), (1472214620,15), (1472121526,15), (1472028436,15), (1471935351,15), (1471842271,15), (1471749196,15), (1471656126,15), (1471563060,15), (1471469999,15), (1471376943,15), (1471283891,15), (1471190845,15), (1471097803,15), (1471004766,15), (1470911734,15),
    (1470818706,15), (1470725684,15), (1470632666,15), (1470539653,15), (1470446644,15), (1470353641,15), (1470260642,15), (1470167648,15), (1470074659,15), (1469981675,15), (1469888695,15), (1469795720,15), (1469702750,15), (1469609785,15), (1469516824,15), (1469423869,15),
    (1469330918,15), (1469237971,15), (1469145030,15), (1469052093,15), (1468959162,15), (1468866234,15), (1468773312,15), (1468680395,15), (1468587482,15), (1468494574,15), (1468401671,15), (1468308772,15), (1468215879,15), (1468122990,15), (1468030106,15), (1467937226,15),
    (1467844352,15), (1467751482,15), (1467658617,15), (1467565757,15), (1467472901,15), (1467380051,15), (1467287205,15), (1467194363,15), (1467101527,15), (1467008695,15), (1466915869,15), (1466823046,15), (1466730229,15), (1466637417,15), (1466544609,15), (1466451806,15),
    (1466359007,15), (1466266214,15), (1466173425,15), (1466080641,15), (1465987862,15), (1465895088,15), (1465802318,15), (1465709553,15), (1465616793,15), (1465524038,15), (1465431287,15), (1465338541,15), (1465245800,15), (1465153064,15), (1465060332,15), (1464967605,15),
    (1464874883,15), (1464782166,15), (1464689453,15), (1464596746,15), (1464504043,15), (1464411344,15), (1464318651,15), (1464225962,15), (1464133278,15), (1464040599,15), (1463947924,15), (1463855255,15), (1463762590,15), (1463669929,15), (1463577274,15), (1463484623,15),
    (1463391977,15), (1463299336,15), (1463206700,15), (1463114068,15), (1463021441,15), (1462928819,15), (1462836202,15), (1462743589,15), (1462650981,15), (1462558378,15), (1462465779,15), (1462373186,15), (1462280597,15), (1462188013,15), (1462095433,15), (1462002858,15),
    (1461910289,15), (1461817723,15), (1461725163,15), (1461632607,15), (1461540056,15), (1461447510,15), (1461354969,15), (1461262432,15), (1461169900,15), (1461077373,15), (1460984850,15), (1460892333,15), (1460799820,15), (1460707311,15), (1460614808,15), (1460522309,15),
    (1460429815,15), (1460337326,15), (1460244841,15), (1460152362,15), (1460059887,15), (1459967416,15), (1459874951,15), (1459782490,15), (1459690034,15), (1459597583,15), (1459505136,15), (1459412694,15), (1459320257,15), (1459227825,15), (1459135397,15), (1459042974,15),
    (1458950556,15), (1458858143,15), (1458765734,15), (1458673330,15), (1458580931,15), (1458488536,15), (1458396146,15), (1458303761,15), (1458211381,15), (1458119006,15), (1458026635,15), (1457934269,15), (1457841907,15), (1457749551,15), (1457657199,15), (1457564852,15),
    (1457472509,15), (1457380171,15), (1457287838,15), (1457195510,15), (1457103187,15), (1457010868,15), (1456918554,15), (1456826245,15), (1456733940,15), (1456641640,15), (1456549345,15), (1456457055,15), (1456364769,15), (1456272488,15), (1456180212,15), (1456087940,15),
    (1455995673,15), (1455903411,15), (1455811154,15), (1455718901,15), (1455626653,15), (1455534410,15), (1455442172,15), (1455349938,15), (1455257709,15), (1455165485,15), (1455073265,15), (1454981050,15), (1454888840,15), (1454796635,15), (1454704434,15), (1454612238,15),
    (1454520047,15), (1454427861,15), (1454335679,15), (1454243502,15), (1454151329,15), (1454059162,15), (1453966999,15), (1453874841,15), (1453782687,15), (1453690538,15), (1453598394,15), (1453506255,15), (1453414120,15), (1453321990,15), (1453229865,15), (1453137745,15),
    (1453045629,15), (1452953518,15), (1452861411,15), (1452769310,15), (1452677213,15), (1452585121,15), (1452493033,15), (1452400950,15), (1452308872,15), (1452216799,15), (1452124730,15), (1452032666,15), (1451940607,15), (1451848553,15), (1451756503,15), (1451664458,15),
    (1451572417,15), (1451480382,15), (1451388351,15), (1451296324,15), (1451204303,15), (1451112286,15), (1451020274,15), (1450928266,15), (1450836263,15), (1450744265,15), (1450652272,15), (1450560283,15), (1450468299,15), (1450376320,15), (1450284346,15), (1450192376,15),
    (1450100411,15), (1450008450,15), (1449916495,15), (1449824543,15), (1449732597,15), (1449640656,15), (1449548719,15), (1449456786,15), (1449364859,15), (1449272936,15), (1449181018,15), (1449089104,15), (1448997196,15), (1448905292,15), (1448813392,15), (1448721498,15),
    (1448629608,15), (1448537722,15), (1448445842,15), (1448353966,15), (1448262095,15), (1448170228,15), (1448078367,15), (1447986509,15), (1447894657,15), (1447802809,15), (1447710966,15), (1447619128,15), (1447527294,15), (1447435466,15), (1447343641,15), (1447251822,15),
    (1447160007,15), (1447068197,15), (1446976391,15), (1446884590,15), (1446792794,15), (1446701003,15), (1446609216,15), (1446517434,15), (1446425657,15), (1446333884,15), (1446242116,15), (1446150353,15), (1446058594,15), (1445966840,15), (1445875091,15), (1445783347,15),
    (1445691607,15), (1445599871,15), (1445508141,15), (1445416415,15), (1445324694,15), (1445232978,15), (1445141266,15), (1445049559,15), (1444957856,15), (1444866159,15), (1444774466,15), (1444682777,15), (1444591094,15), (1444499415,15), (1444407740,15), (1444316071,15),
    (1444224406,15), (1444132745,15), (1444041090,15), (1443949439,15), (1443857793,15), (1443766151,15), (1443674514,15), (1443582882,15), (1443491254,15), (1443399632,15), (1443308013,15), (1443216400,15), (1443124791,15), (1443033187,15), (1442941587,15), (1442849993,15),
    (1442758402,15), (1442666817,15), (1442575236,15), (1442483660,15), (1442392089,15), (1442300522,15), (1442208960,15), (1442117402,15), (1442025849,15), (1441934301,15), (1441842758,15), (1441751219,15), (1441659685,15), (1441568156,15), (1441476631,15), (1441385111,15),
    (1441293595,15), (1441202085,15), (1441110579,15), (1441019077,15), (1440927580,15), (1440836088,15), (1440744601,15), (1440653118,15), (1440561640,15), (1440470167,15), (1440378698,15), (1440287234,15), (1440195774,15), (1440104319,15), (1440012869,15), (1439921424,15),
    (1439829983,15), (1439738547,15), (1439647115,15), (1439555689,15), (1439464267,15), (1439372849,15), (1439281436,15), (1439190028,15), (1439098625,15), (1439007226,15), (1438915832,15), (1438824442,15), (1438733057,15), (1438641677,15), (1438550301,15), (1438458930,15),
    (1438367564,15), (1438276203,15), (1438184846,15), (1438093493,15), (1438002146,15), (1437910803,15), (1437819464,15), (1437728131,15), (1437636802,15), (1437545477,15), (1437454158,15), (1437362843,15), (1437271532,15), (1437180226,15), (1437088925,15), (1436997629,15),
    (1436906337,15), (1436815050,15), (1436723767,15), (1436632490,15), (1436541216,15), (1436449948,15), (1436358684,15), (1436267425,15), (1436176170,15), (1436084920,15), (1435993675,15), (1435902434,15), (1435811198,15), (1435719967,15), (1435628740,15), (1435537518,15),
    (1435446300,15), (1435355088,15), (1435263879,15), (1435172676,15), (1435081477,15), (1434990283,15), (1434899093,15), (1434807908,15), (1434716728,15), (1434625552,15), (1434534381,15), (1434443215,15), (1434352053,15), (1434260896,15), (1434169744,15), (1434078596,15),
    (1433987453,15), (1433896314,15), (1433805180,15), (1433714051,15), (1433622926,15), (1433531806,15), (1433440691,15), (1433349580,15), (1433258474,15), (1433167373,15), (1433076276,15), (1432985184,15), (1432894096,15), (1432803013,15), (1432711935,15), (1432620862,15),
    (1432529793,15), (1432438728,15), (1432347668,15), (1432256613,15), (1432165563,15), (1432074517,15), (1431983476,15), (1431892439,15), (1431801407,15), (1431710380,15), (1431619357,15), (1431528339,15), (1431437326,15), (1431346317,15), (1431255313,15), (1431164313,15),
    (1431073318,15), (1430982328,15), (1430891342,15), (1430800361,15), (1430709385,15), (1430618413,15), (1430527446,15), (1430436484,15), (1430345526,15), (1430254572,15), (1430163624,15), (1430072680,15), (1429981740,15), (1429890805,15), (1429799875,15), (1429708950,15),
    (1429618029,15), (1429527113,15), (1429436201,15), (1429345294,15), (1429254391,15), (1429163494,15), (1429072600,15), (1428981712,15), (1428890828,15), (1428799949,15), (1428709074,15), (1428618204,15), (1428527338,15), (1428436477,15), (1428345621,15), (1428254770,15),
    (1428163923,15), (1428073080,15), (1427982242,15), (1427891409,15), (1427800581,15), (1427709757,15), (1427618937,15), (1427528123,15), (1427437313,15), (1427346507,15), (1427255706,15), (1427164910,15), (1427074118,15), (1426983331,15), (1426892549,15), (1426801771,15),
    (1426710998,15), (1426620229,15), (1426529465,15), (1426438706,15), (1426347951,15), (1426257201,15), (1426166455,15), (1426075715,15), (1425984978,15), (1425894247,15), (1425803519,15), (1425712797,15), (1425622079,15), (1425531366,15), (1425440657,15), (1425349953,15),
    (1425259253,15), (1425168559,15), (1425077868,15), (1424987183,15), (1424896502,15), (1424805825,15), (1424715153,15), (1424624486,15), (1424533823,15), (1424443165,15), (1424352512,15), (1424261863,15), (1424171219,15), (1424080579,15), (1423989944,15), (1423899314,15),
    (1423808688,15), (1423718067,15), (1423627450,15), (1423536838,15), (1423446231,15), (1423355628,15), (1423265030,15), (1423174436,15), (1423083847,15), (1422993262,15), (1422902682,15), (1422812107,15), (1422721537,15), (1422630970,15), (1422540409,15), (1422449852,15),
    (1422359300,15), (1422268752,15), (1422178209,15), (1422087671,15), (1421997137,15), (1421906607,15), (1421816083,15), (1421725562,15), (1421635047,15), (1421544536,15), (1421454030,15), (1421363528,15), (1421273031,15), (1421182538,15), (1421092050,15), (1421001567,15),
    (1420911088,15), (1420820613,15), (1420730144,15), (1420639679,15), (1420549218,15), (1420458762,15), (1420368311,15), (1420277864,15), (1420187422,15), (1420096985,15), (1420006552,15), (1419916123,15), (1419825699,15), (1419735280,15), (1419644866,15), (1419554456,15),
    (1419464050,15), (1419373649,15), (1419283253,15), (1419192861,15), (1419102474,15), (1419012091,15), (1418921713,15), (1418831340,15), (1418740971,15), (1418650607,15), (1418560247,15), (1418469892,15), (1418379542,15), (1418289196,15), (1418198855,15), (1418108518,15),
    (1418018186,15), (1417927858,15), (1417837535,15), (1417747216,15), (1417656903,15), (1417566593,15), (1417476289,15), (1417385988,15), (1417295693,15), (1417205402,15), (1417115115,15), (1417024834,15), (1416934556,15), (1416844283,15), (1416754015,15), (1416663752,15),
    (1416573493,15), (1416483238,15), (1416392988,15), (1416302743,15), (1416212502,15), (1416122266,15), (1416032035,15), (1415941808,15), (1415851585,15), (1415761367,15), (1415671154,15), (1415580945,15), (1415490741,15), (1415400542,15), (1415310347,15), (1415220156,15),
    (1415129970,15), (1415039789,15), (1414949612,15), (1414859440,15), (1414769272,15), (1414679109,15), (1414588951,15), (1414498797,15), (1414408647,15), (1414318503,15), (1414228362,15), (1414138227,15), (1414048095,15), (1413957969,15), (1413867847,15), (1413777729,15),
    (1413687617,15), (1413597508,15), (1413507404,15), (1413417305,15), (1413327211,15), (1413237121,15), (1413147035,15), (1413056954,15), (1412966878,15), (1412876806,15), (1412786738,15), (1412696676,15), (1412606617,15), (1412516564,15), (1412426515,15), (1412336470,15),
    (1412246430,15), (1412156395,15), (1412066364,15), (1411976338,15), (1411886316,15), (1411796299,15), (1411706286,15), (1411616278,15), (1411526274,15), (1411436276,15), (1411346281,15), (1411256291,15), (1411166306,15), (1411076325,15), (1410986349,15), (1410896377,15),
    (1410806410,15), (1410716447,15), (1410626489,15), (1410536536,15), (1410446587,15), (1410356643,15), (1410266703,15), (1410176767,15), (1410086837,15), (1409996911,15), (1409906989,15), (1409817072,15), (1409727159,15), (1409637251,15), (1409547348,15), (1409457449,15),
    (1409367554,15), (1409277665,15), (1409187779,15), (1409097898,15), (1409008022,15), (1408918151,15), (1408828283,15), (1408738421,15), (1408648563,15), (1408558709,15), (1408468860,15), (1408379016,15), (1408289176,15), (1408199341,15), (1408109510,15), (1408019684,15),
    (1407929862,15), (1407840045,15), (1407750232,15), (1407660424,15), (1407570620,15), (1407480821,15), (1407391027,15), (1407301237,15), (1407211451,15), (1407121670,15), (1407031894,15), (1406942122,15), (1406852355,15), (1406762592,15), (1406672834,15), (1406583080,15),
    (1406493331,15), (1406403587,15), (1406313846,15), (1406224111,15), (1406134380,15), (1406044653,15), (1405954931,15), (1405865214,15), (1405775501,15), (1405685793,15), (1405596089,15), (1405506389,15), (1405416695,15), (1405327004,15), (1405237319,15), (1405147638,15),
    (1405057961,15), (1404968289,15), (1404878621,15), (1404788958,15), (1404699299,15), (1404609645,15), (1404519996,15), (1404430351,15), (1404340710,15), (1404251074,15), (1404161443,15), (1404071816,15), (1403982194,15), (1403892576,15), (1403802963,15), (1403713354,15),
    (1403623749,15), (1403534150,15), (1403444554,15), (1403354964,15), (1403265378,15), (1403175796,15), (1403086219,15), (1402996646,15), (1402907078,15), (1402817514,15), (1402727955,15), (1402638401,15), (1402548851,15), (1402459305,15), (1402369764,15), (1402280228,15),
    (1402190696,15), (1402101168,15), (1402011645,15), (1401922127,15), (1401832613,15), (1401743103,15), (1401653599,15), (1401564098,15), (1401474602,15), (1401385111,15), (1401295624,15), (1401206142,15), (1401116664,15), (1401027191,15), (1400937722,15), (1400848258,15),
    (1400758798,15), (1400669343,15), (1400579892,15), (1400490446,15), (1400401004,15), (1400311567,15), (1400222134,15), (1400132706,15), (1400043282,15), (1399953863,15), (1399864448,15), (1399775038,15), (1399685633,15), (1399596231,15), (1399506835,15), (1399417443,15),
    (1399328055,15), (1399238672,15), (1399149293,15), (1399059919,15), (1398970550,15), (1398881184,15), (1398791824,15), (1398702468,15), (1398613116,15), (1398523769,15), (1398434426,15), (1398345088,15), (1398255755,15), (1398166426,15), (1398077101,15), (1397987781,15),
    (1397898465,15), (1397809154,15), (1397719848,15), (1397630546,15), (1397541248,15), (1397451955,15), (1397362666,15), (1397273382,15), (1397184103,15), (1397094828,15), (1397005557,15), (1396916291,15), (1396827029,15), (1396737772,15), (1396648520,15), (1396559271,15),
    (1396470028,15), (1396380789,15), (1396291554,15), (1396202324,15), (1396113098,15), (1396023877,15), (1395934660,15), (1395845448,15), (1395756241,15), (1395667037,15), (1395577839,15), (1395488645,15), (1395399455,15), (1395310270,15), (1395221089,15), (1395131913,15),
    (1395042741,15), (1394953574,15), (1394864411,15), (1394775252,15), (1394686099,15), (1394596949,15), (1394507805,15), (1394418664,15), (1394329528,15), (1394240397,15), (1394151270,15), (1394062148,15), (1393973030,15), (1393883916,15), (1393794807,15), (1393705703,15),
    (1393616603,15), (1393527507,15), (1393438416,15), (1393349330,15), (1393260248,15), (1393171170,15), (1393082097,15), (1392993029,15), (1392903965,15), (1392814905,15), (1392725850,15), (1392636799,15), (1392547753,15), (1392458711,15), (1392369674,15), (1392280641,15),
    (1392191613,15), (1392102589,15), (1392013570,15), (1391924555,15), (1391835545,15), (1391746539,15), (1391657537,15), (1391568540,15), (1391479548,15), (1391390560,15), (1391301576,15), (1391212597,15), (1391123623,15), (1391034653,15), (1390945687,15), (1390856726,15),
    (1390767769,15), (1390678817,15), (1390589869,15), (1390500926,15), (1390411987,15), (1390323053,15), (1390234123,15), (1390145198,15), (1390056277,15), (1389967361,15), (1389878449,15), (1389789541,15), (1389700638,15), (1389611740,15), (1389522845,15), (1389433956,15),
    (1389345071,15), (1389256190,15), (1389167314,15), (1389078442,15), (1388989575,15), (1388900712,15), (1388811854,15), (1388723000,15), (1388634150,15), (1388545305,15), (1388456465,15), (1388367629,15), (1388278797,15), (1388189970,15), (1388101148,15), (1388012329,15),
    (1387923516,15), (1387834707,15), (1387745902,15), (1387657101,15), (1387568306,15), (1387479514,15), (1387390727,15), (1387301945,15), (1387213167,15), (1387124393,15), (1387035624,15), (1386946859,15), (1386858099,15), (1386769344,15), (1386680592,15), (1386591845,15),
    (1386503103,15), (1386414365,15), (1386325632,15), (1386236903,15), (1386148178,15), (1386059458,15), (1385970743,15), (1385882031,15), (1385793325,15), (1385704622,15), (1385615925,15), (1385527231,15), (1385438542,15), (1385349858,15), (1385261178,15), (1385172502,15),
    (1385083831,15), (1384995165,15), (1384906502,15), (1384817845,15), (1384729191,15), (1384640543,15), (1384551898,15), (1384463258,15), (1384374623,15), (1384285992,15), (1384197365,15), (1384108743,15), (1384020125,15), (1383931512,15), (1383842903,15), (1383754299,15),
    (1383665699,15), (1383577104,15), (1383488513,15), (1383399926,15), (1383311344,15), (1383222766,15), (1383134193,15), (1383045624,15), (1382957060,15), (1382868500,15), (1382779944,15), (1382691393,15), (1382602847,15), (1382514305,15), (1382425767,15), (1382337234,15),
    (1382248705,15), (1382160181,15), (1382071661,15), (1381983145,15), (1381894634,15), (1381806127,15), (1381717625,15), (1381629128,15), (1381540634,15), (1381452145,15), (1381363661,15), (1381275181,15), (1381186705,15), (1381098234,15), (1381009768,15), (1380921305,15),
    (1380832848,15), (1380744394,15), (1380655945,15), (1380567501,15), (1380479061,15), (1380390625,15), (1380302194,15), (1380213767,15), (1380125345,15), (1380036927,15), (1379948513,15), (1379860104,15), (1379771700,15), (1379683300,15), (1379594904,15), (1379506513,15),
    (1379418126,15), (1379329743,15), (1379241365,15), (1379152992,15), (1379064622,15), (1378976258,15), (1378887897,15), (1378799541,15), (1378711190,15), (1378622843,15), (1378534500,15), (1378446162,15), (1378357828,15), (1378269499,15), (1378181174,15), (1378092854,15),
    (1378004538,15), (1377916226,15), (1377827919,15), (1377739616,15), (1377651318,15), (1377563024,15), (1377474734,15), (1377386449,15), (1377298169,15), (1377209892,15), (1377121621,15), (1377033353,15), (1376945090,15), (1376856832,15), (1376768578,15), (1376680328,15),
    (1376592083,15), (1376503842,15), (1376415605,15), (1376327373,15), (1376239146,15), (1376150922,15), (1376062704,15), (1375974489,15), (1375886279,15), (1375798074,15), (1375709873,15), (1375621676,15), (1375533484,15), (1375445296,15), (1375357112,15), (1375268933,15),
    (1375180759,15), (1375092588,15), (1375004423,15), (1374916261,15), (1374828104,15), (1374739952,15), (1374651804,15), (1374563660,15), (1374475521,15), (1374387386,15), (1374299255,15), (1374211129,15), (1374123007,15), (1374034890,15), (1373946777,15), (1373858669,15),
    (1373770565,15), (1373682465,15), (1373594370,15), (1373506279,15), (1373418193,15), (1373330111,15), (1373242033,15), (1373153960,15), (1373065891,15), (1372977827,15), (1372889767,15), (1372801711,15), (1372713660,15), (1372625613,15), (1372537571,15), (1372449533,15),
    (1372361499,15), (1372273470,15), (1372185446,15), (1372097425,15), (1372009409,15), (1371921398,15), (1371833391,15), (1371745388,15), (1371657390,15), (1371569396,15), (1371481406,15), (1371393421,15), (1371305440,15), (1371217464,15), (1371129492,15), (1371041525,15),
    (1370953561,15), (1370865603,15), (1370777648,15), (1370689698,15), (1370601753,15), (1370513812,15), (1370425875,15), (1370337943,15), (1370250015,15), (1370162091,15), (1370074172,15), (1369986257,15), (1369898347,15), (1369810441,15), (1369722539,15), (1369634642,15),
    (1369546749,15), (1369458861,15), (1369370977,15), (1369283097,15), (1369195222,15), (1369107351,15), (1369019485,15), (1368931623,15), (1368843765,15), (1368755912,15), (1368668063,15), (1368580218,15), (1368492378,15), (1368404542,15), (1368316711,15), (1368228884,15),
    (1368141062,15), (1368053243,15), (1367965430,15), (1367877620,15), (1367789815,15), (1367702015,15), (1367614218,15), (1367526427,15), (1367438639,15), (1367350856,15), (1367263077,15), (1367175303,15), (1367087533,15), (1366999768,15), (1366912006,15), (1366824250,15),
    (1366736497,15), (1366648749,15), (1366561006,15), (1366473266,15), (1366385531,15), (1366297801,15), (1366210075,15), (1366122353,15), (1366034636,15), (1365946923,15), (1365859214,15), (1365771510,15), (1365683810,15), (1365596115,15), (1365508424,15), (1365420737,15),
    (1365333055,15), (1365245377,15), (1365157703,15), (1365070034,15), (1364982369,15), (1364894709,15), (1364807053,15), (1364719401,15), (1364631754,15), (1364544111,15), (1364456472,15), (1364368838,15), (1364281208,15), (1364193583,15), (1364105962,15), (1364018345,15),
    (1363930733,15), (1363843125,15), (1363755521,15), (1363667922,15), (1363580327,15), (1363492737,15), (1363405150,15), (1363317569,15), (1363229991,15), (1363142418,15), (1363054850,15), (1362967286,15), (1362879726,15), (1362792170,15), (1362704619,15), (1362617072,15),
    (1362529530,15), (1362441992,15), (1362354458,15), (1362266929,15), (1362179404,15), (1362091883,15), (1362004367,15), (1361916855,15), (1361829348,15), (1361741844,15), (1361654346,15), (1361566851,15), (1361479361,15), (1361391876,15), (1361304394,15), (1361216917,15),
    (1361129445,15), (1361041976,15), (1360954513,15), (1360867053,15), (1360779598,15), (1360692147,15), (1360604701,15), (1360517259,15), (1360429821,15), (1360342388,15), (1360254959,15), (1360167534,15), (1360080114,15), (1359992698,15), (1359905286,15), (1359817879,15),
    (1359730476,15), (1359643078,15), (1359555684,15), (1359468294,15), (1359380908,15), (1359293527,15), (1359206151,15), (1359118778,15), (1359031410,15), (1358944047,15), (1358856687,15), (1358769332,15), (1358681982,15), (1358594635,15), (1358507294,15), (1358419956,15),
    (1358332623,15), (1358245294,15), (1358157969,15), (1358070649,15), (1357983334,15), (1357896022,15), (1357808715,15), (1357721412,15), (1357634114,15), (1357546820,15), (1357459530,15), (1357372245,15), (1357284964,15), (1357197687,15), (1357110415,15), (1357023147,15),
    (1356935883,15), (1356848624,15), (1356761369,15), (1356674118,15), (1356586872,15), (1356499630,15), (1356412393,15), (1356325160,15), (1356237931,15), (1356150706,15), (1356063486,15), (1355976270,15), (1355889059,15), (1355801852,15), (1355714649,15), (1355627450,15),
    (1355540256,15), (1355453066,15), (1355365881,15), (1355278700,15), (1355191523,15), (1355104351,15), (1355017183,15), (1354930019,15), (1354842859,15), (1354755704,15), (1354668554,15), (1354581407,15), (1354494265,15), (1354407127,15), (1354319994,15), (1354232865,15),
    (1354145740,15), (1354058620,15), (1353971504,15), (1353884392,15), (1353797285,15), (1353710182,15), (1353623083,15), (1353535989,15), (1353448899,15), (1353361813,15), (1353274732,15), (1353187655,15), (1353100582,15), (1353013513,15), (1352926449,15), (1352839390,15),
    (1352752334,15), (1352665283,15), (1352578236,15), (1352491194,15), (1352404156,15), (1352317122,15), (1352230093,15), (1352143068,15), (1352056047,15), (1351969031,15), (1351882019,15), (1351795011,15), (1351708007,15), (1351621008,15), (1351534013,15), (1351447023,15),
    (1351360037,15), (1351273055,15), (1351186077,15), (1351099104,15), (1351012135,15), (1350925171,15), (1350838211,15), (1350751255,15), (1350664303,15), (1350577356,15), (1350490413,15), (1350403475,15), (1350316540,15), (1350229610,15), (1350142685,15), (1350055763,15),
    (1349968846,15), (1349881934,15), (1349795025,15), (1349708121,15), (1349621222,15), (1349534326,15), (1349447435,15), (1349360548,15), (1349273666,15), (1349186788,15), (1349099914,15), (1349013045,15), (1348926179,15), (1348839319,15), (1348752462,15), (1348665610,15),
    (1348578762,15), (1348491918,15), (1348405079,15), (1348318244,15), (1348231413,15), (1348144587,15), (1348057765,15), (1347970947,15), (1347884134,15), (1347797325,15), (1347710520,15), (1347623720,15), (1347536924,15), (1347450132,15), (1347363344,15), (1347276561,15),
    (1347189782,15), (1347103007,15), (1347016237,15), (1346929471,15), (1346842710,15), (1346755952,15), (1346669199,15), (1346582450,15), (1346495706,15), (1346408966,15), (1346322230,15), (1346235498,15), (1346148771,15), (1346062048,15), (1345975330,15), (1345888615,15),
    (1345801905,15), (1345715200,15), (1345628498,15), (1345541801,15), (1345455108,15), (1345368420,15), (1345281736,15), (1345195056,15), (1345108380,15), (1345021709,15), (1344935042,15), (1344848379,15), (1344761721,15), (1344675067,15), (1344588417,15), (1344501772,15),
    (1344415131,15), (1344328494,15), (1344241861,15), (1344155233,15), (1344068609,15), (1343981989,15), (1343895374,15), (1343808763,15), (1343722156,15), (1343635554,15), (1343548955,15), (1343462362,15), (1343375772,15), (1343289187,15), (1343202606,15), (1343116029,15),
    (1343029457,15), (1342942888,15), (1342856325,15), (1342769765,15), (1342683210,15), (1342596659,15), (1342510112,15), (1342423570,15), (1342337032,15), (1342250498,15), (1342163969,15), (1342077443,15), (1341990922,15), (1341904406,15), (1341817894,15), (1341731385,15),
    (1341644882,15), (1341558382,15), (1341471887,15), (1341385396,15), (1341298910,15), (1341212427,15), (1341125949,15), (1341039476,15), (1340953006,15), (1340866541,15), (1340780080,15), (1340693624,15), (1340607171,15), (1340520723,15), (1340434280,15), (1340347840,15),
    (1340261405,15), (1340174974,15), (1340088547,15), (1340002125,15), (1339915707,15), (1339829293,15), (1339742884,15), (1339656479,15), (1339570078,15), (1339483681,15), (1339397289,15), (1339310901,15), (1339224517,15), (1339138138,15), (1339051762,15), (1338965391,15),
    (1338879025,15), (1338792662,15), (1338706304,15), (1338619951,15), (1338533601,15), (1338447256,15), (1338360915,15), (1338274578,15), (1338188246,15), (1338101917,15), (1338015594,15), (1337929274,15), (1337842959,15), (1337756648,15), (1337670341,15), (1337584038,15),
    (1337497740,15), (1337411446,15), (1337325156,15), (1337238871,15), (1337152590,15), (1337066313,15), (1336980040,15), (1336893772,15), (1336807508,15), (1336721248,15), (1336634993,15), (1336548742,15), (1336462495,15), (1336376252,15), (1336290013,15), (1336203779,15),
    (1336117549,15), (1336031324,15), (1335945102,15), (1335858885,15), (1335772673,15), (1335686464,15), (1335600260,15), (1335514060,15), (1335427864,15), (1335341672,15), (1335255485,15), (1335169302,15), (1335083124,15), (1334996949,15), (1334910779,15), (1334824613,15),
    (1334738452,15), (1334652294,15), (1334566141,15), (1334479992,15), (1334393848,15), (1334307707,15), (1334221571,15), (1334135440,15), (1334049312,15), (1333963189,15), (1333877070,15), (1333790955,15), (1333704845,15), (1333618738,15), (1333532636,15), (1333446539,15),
    (1333360445,15), (1333274356,15), (1333188271,15), (1333102190,15), (1333016114,15), (1332930042,15), (1332843974,15), (1332757910,15), (1332671851,15), (1332585796,15), (1332499745,15), (1332413698,15), (1332327656,15), (1332241618,15), (1332155584,15), (1332069554,15),
    (1331983529,15), (1331897508,15), (1331811491,15), (1331725478,15), (1331639470,15), (1331553466,15), (1331467466,15), (1331381471,15), (1331295479,15), (1331209492,15), (1331123509,15), (1331037531,15), (1330951557,15), (1330865586,15), (1330779621,15), (1330693659,15),
    (1330607702,15), (1330521749,15), (1330435800,15), (1330349855,15), (1330263915,15), (1330177979,15), (1330092047,15), (1330006119,15), (1329920196,15), (1329834277,15), (1329748362,15), (1329662451,15), (1329576545,15), (1329490643,15), (1329404745,15), (1329318851,15),
    (1329232962,15), (1329147077,15), (1329061196,15), (1328975319,15), (1328889447,15), (1328803579,15), (1328717715,15), (1328631855,15), (1328546000,15), (1328460148,15), (1328374302,15), (1328288459,15), (1328202620,15), (1328116786,15), (1328030956,15), (1327945130,15),
    (1327859309,15), (1327773491,15), (1327687678,15), (1327601870,15), (1327516065,15), (1327430265,15), (1327344469,15), (1327258677,15), (1327172889,15), (1327087106,15), (1327001326,15), (1326915552,15), (1326829781,15), (1326744014,15), (1326658252,15), (1326572494,15),
    (1326486740,15), (1326400991,15), (1326315246,15), (1326229505,15), (1326143768,15), (1326058035,15), (1325972307,15), (1325886583,15), (1325800863,15), (1325715147,15), (1325629436,15), (1325543728,15), (1325458025,15), (1325372327,15), (1325286632,15), (1325200942,15),
    (1325115256,15), (1325029574,15), (1324943896,15), (1324858223,15), (1324772554,15), (1324686889,15), (1324601228,15), (1324515572,15), (1324429920,15), (1324344272,15), (1324258628,15), (1324172988,15), (1324087353,15), (1324001722,15), (1323916095,15), (1323830472,15),
    (1323744854,15), (1323659240,15), (1323573630,15), (1323488024,15), (1323402422,15), (1323316825,15), (1323231232,15), (1323145643,15), (1323060058,15), (1322974478,15), (1322888902,15), (1322803330,15), (1322717762,15), (1322632198,15), (1322546639,15), (1322461084,15),
    (1322375533,15), (1322289986,15), (1322204444,15), (1322118905,15), (1322033371,15), (1321947842,15), (1321862316,15), (1321776795,15), (1321691277,15), (1321605764,15), (1321520256,15), (1321434751,15), (1321349251,15), (1321263755,15), (1321178263,15), (1321092775,15),
    (1321007292,15), (1320921813,15), (1320836338,15), (1320750867,15), (1320665400,15), (1320579938,15), (1320494480,15), (1320409026,15), (1320323576,15), (1320238130,15), (1320152689,15), (1320067252,15), (1319981819,15), (1319896390,15), (1319810966,15), (1319725546,15),
    (1319640129,15), (1319554718,15), (1319469310,15), (1319383907,15), (1319298507,15), (1319213112,15), (1319127721,15), (1319042335,15), (1318956952,15), (1318871574,15), (1318786200,15), (1318700830,15), (1318615465,15), (1318530103,15), (1318444746,15), (1318359393,15),
    (1318274044,15), (1318188700,15), (1318103360,15), (1318018023,15), (1317932691,15), (1317847364,15), (1317762040,15), (1317676721,15), (1317591406,15), (1317506095,15), (1317420788,15), (1317335485,15), (1317250187,15), (1317164893,15), (1317079603,15), (1316994317,15),
    (1316909036,15), (1316823758,15), (1316738485,15), (1316653216,15), (1316567951,15), (1316482691,15), (1316397434,15), (1316312182,15), (1316226934,15), (1316141690,15), (1316056451,15), (1315971215,15), (1315885984,15), (1315800757,15), (1315715534,15), (1315630316,15),
    (1315545101,15), (1315459891,15), (1315374685,15), (1315289483,15), (1315204286,15), (1315119092,15), (1315033903,15), (1314948718,15), (1314863537,15), (1314778360,15), (1314693188,15), (1314608020,15), (1314522855,15), (1314437695,15), (1314352540,15), (1314267388,15),
    (1314182241,15), (1314097098,15), (1314011959,15), (1313926824,15), (1313841693,15), (1313756567,15), (1313671445,15), (1313586327,15), (1313501213,15), (1313416103,15), (1313330998,15), (1313245896,15), (1313160799,15), (1313075706,15), (1312990617,15), (1312905533,15),
    (1312820453,15), (1312735376,15), (1312650304,15), (1312565236,15), (1312480173,15), (1312395113,15), (1312310058,15), (1312225007,15), (1312139960,15), (1312054917,15), (1311969879,15), (1311884844,15), (1311799814,15), (1311714788,15), (1311629766,15), (1311544749,15),
    (1311459735,15), (1311374726,15), (1311289721,15), (1311204720,15), (1311119723,15), (1311034730,15), (1310949742,15), (1310864758,15), (1310779778,15), (1310694802,15), (1310609830,15), (1310524863,15), (1310439899,15), (1310354940,15), (1310269985,15), (1310185034,15),
    (1310100088,15), (1310015145,15), (1309930207,15), (1309845273,15), (1309760343,15), (1309675417,15), (1309590495,15), (1309505578,15), (1309420665,15), (1309335756,15), (1309250851,15), (1309165950,15), (1309081053,15), (1308996161,15), (1308911273,15), (1308826388,15),
    (1308741509,15), (1308656633,15), (1308571761,15), (1308486894,15), (1308402031,15), (1308317172,15), (1308232317,15), (1308147466,15), (1308062619,15), (1307977777,15), (1307892939,15), (1307808105,15), (1307723275,15), (1307638449,15), (1307553627,15), (1307468810,15),
    (1307383997,15), (1307299188,15), (1307214383,15), (1307129582,15), (1307044785,15), (1306959993,15), (1306875205,15), (1306790421,15), (1306705641,15), (1306620865,15), (1306536093,15), (1306451326,15), (1306366562,15), (1306281803,15), (1306197048,15), (1306112298,15),
    (1306027551,15), (1305942808,15), (1305858070,15), (1305773336,15), (1305688606,15), (1305603880,15), (1305519158,15), (1305434441,15), (1305349727,15), (1305265018,15), (1305180313,15), (1305095612,15), (1305010915,15), (1304926223,15), (1304841534,15), (1304756850,15),
    (1304672170,15), (1304587494,15), (1304502822,15), (1304418154,15), (1304333491,15), (1304248831,15), (1304164176,15), (1304079525,15), (1303994878,15), (1303910235,15), (1303825597,15), (1303740962,15), (1303656332,15), (1303571706,15), (1303487084,15), (1303402466,15),
    (1303317852,15), (1303233242,15), (1303148637,15), (1303064036,15), (1302979439,15), (1302894846,15), (1302810257,15), (1302725672,15), (1302641092,15), (1302556515,15), (1302471943,15), (1302387375,15), (1302302811,15), (1302218251,15), (1302133695,15), (1302049144,15),
    (1301964597,15), (1301880053,15), (1301795514,15), (1301710979,15), (1301626448,15), (1301541922,15), (1301457399,15), (1301372881,15), (1301288367,15), (1301203857,15), (1301119351,15), (1301034849,15), (1300950351,15), (1300865858,15), (1300781368,15), (1300696883,15),
    (1300612402,15), (1300527925,15), (1300443452,15), (1300358984,15), (1300274519,15), (1300190059,15), (1300105602,15), (1300021150,15), (1299936702,15), (1299852258,15), (1299767819,15), (1299683383,15), (1299598952,15), (1299514524,15), (1299430101,15), (1299345682,15),
    (1299261267,15), (1299176856,15), (1299092450,15), (1299008047,15), (1298923649,15), (1298839255,15), (1298754865,15), (1298670479,15), (1298586097,15), (1298501719,15), (1298417345,15), (1298332976,15), (1298248611,15), (1298164250,15), (1298079893,15), (1297995540,15),
    (1297911191,15), (1297826846,15), (1297742506,15), (1297658169,15), (1297573837,15), (1297489509,15), (1297405185,15), (1297320865,15), (1297236549,15), (1297152238,15), (1297067930,15), (1296983627,15), (1296899327,15), (1296815032,15), (1296730741,15), (1296646454,15),
    (1296562172,15), (1296477893,15), (1296393619,15), (1296309348,15), (1296225082,15), (1296140820,15), (1296056562,15), (1295972308,15), (1295888058,15), (1295803813,15), (1295719571,15), (1295635334,15), (1295551100,15), (1295466871,15), (1295382646,15), (1295298425,15),
    (1295214209,15), (1295129996,15), (1295045787,15), (1294961583,15), (1294877383,15), (1294793186,15), (1294708994,15), (1294624806,15), (1294540623,15), (1294456443,15), (1294372267,15), (1294288096,15), (1294203928,15), (1294119765,15), (1294035606,15), (1293951451,15),
    (1293867300,15), (1293783153,15), (1293699011,15), (1293614872,15), (1293530738,15), (1293446607,15), (1293362481,15), (1293278359,15), (1293194241,15), (1293110127,15), (1293026017,15), (1292941912,15), (1292857810,15), (1292773713,15), (1292689620,15), (1292605530,15),
    (1292521445,15), (1292437364,15), (1292353287,15), (1292269215,15), (1292185146,15), (1292101081,15), (1292017021,15), (1291932965,15), (1291848913,15), (1291764864,15), (1291680820,15), (1291596781,15), (1291512745,15), (1291428713,15), (1291344685,15), (1291260662,15),
    (1291176643,15), (1291092627,15), (1291008616,15), (1290924609,15), (1290840606,15), (1290756607,15), (1290672613,15), (1290588622,15), (1290504636,15), (1290420653,15), (1290336675,15), (1290252701,15), (1290168731,15), (1290084764,15), (1290000803,15), (1289916845,15),
    (1289832891,15), (1289748941,15), (1289664996,15), (1289581055,15), (1289497117,15), (1289413184,15), (1289329255,15), (1289245330,15), (1289161409,15), (1289077492,15), (1288993580,15), (1288909671,15), (1288825766,15), (1288741866,15), (1288657970,15), (1288574077,15),
    (1288490189,15), (1288406305,15), (1288322425,15), (1288238549,15), (1288154678,15), (1288070810,15), (1287986947,15), (1287903087,15), (1287819232,15), (1287735380,15), (1287651533,15), (1287567690,15), (1287483851,15), (1287400016,15), (1287316185,15), (1287232359,15),
    (1287148536,15), (1287064718,15), (1286980903,15), (1286897093,15), (1286813287,15), (1286729484,15), (1286645686,15), (1286561892,15), (1286478102,15), (1286394317,15), (1286310535,15), (1286226757,15), (1286142984,15), (1286059214,15), (1285975449,15), (1285891687,15),
    (1285807930,15), (1285724177,15), (1285640428,15), (1285556683,15), (1285472942,15), (1285389206,15), (1285305473,15), (1285221744,15), (1285138020,15), (1285054299,15), (1284970583,15), (1284886871,15), (1284803162,15), (1284719458,15), (1284635758,15), (1284552062,15),
    (1284468371,15), (1284384683,15), (1284300999,15), (1284217319,15), (1284133644,15), (1284049972,15), (1283966305,15), (1283882642,15), (1283798983,15), (1283715327,15), (1283631676,15), (1283548029,15), (1283464387,15), (1283380748,15), (1283297113,15), (1283213482,15),
    (1283129856,15), (1283046233,15), (1282962615,15), (1282879000,15), (1282795390,15), (1282711784,15), (1282628182,15), (1282544584,15), (1282460990,15), (1282377400,15), (1282293814,15), (1282210232,15), (1282126655,15), (1282043081,15), (1281959511,15), (1281875946,15),
    (1281792385,15), (1281708827,15), (1281625274,15), (1281541725,15), (1281458180,15), (1281374639,15), (1281291102,15), (1281207569,15), (1281124040,15), (1281040515,15), (1280956995,15), (1280873478,15), (1280789965,15), (1280706457,15), (1280622952,15), (1280539452,15),
    (1280455956,15), (1280372464,15), (1280288976,15), (1280205491,15), (1280122011,15), (1280038535,15), (1279955064,15), (1279871596,15), (1279788132,15), (1279704672,15), (1279621217,15), (1279537765,15), (1279454318,15), (1279370874,15), (1279287435,15), (1279204000,15),
    (1279120568,15), (1279037141,15), (1278953718,15), (1278870299,15), (1278786884,15), (1278703473,15), (1278620066,15), (1278536663,15), (1278453265,15), (1278369870,15), (1278286479,15), (1278203093,15), (1278119710,15), (1278036332,15), (1277952958,15), (1277869587,15),
    (1277786221,15), (1277702859,15), (1277619501,15), (1277536147,15), (1277452796,15), (1277369450,15), (1277286109,15), (1277202771,15), (1277119437,15), (1277036107,15), (1276952781,15), (1276869460,15), (1276786142,15), (1276702829,15), (1276619519,15), (1276536214,15),
    (1276452912,15), (1276369615,15), (1276286322,15), (1276203033,15), (1276119747,15), (1276036466,15), (1275953189,15), (1275869916,15), (1275786647,15), (1275703382,15), (1275620121,15), (1275536865,15), (1275453612,15), (1275370363,15), (1275287118,15), (1275203878,15),
    (1275120641,15), (1275037409,15), (1274954180,15), (1274870956,15), (1274787736,15), (1274704519,15), (1274621307,15), (1274538099,15), (1274454894,15), (1274371694,15), (1274288498,15), (1274205306,15), (1274122118,15), (1274038934,15), (1273955754,15), (1273872578,15),
    (1273789407,15), (1273706239,15), (1273623075,15), (1273539915,15), (1273456760,15), (1273373608,15), (1273290461,15), (1273207317,15), (1273124178,15), (1273041042,15), (1272957911,15), (1272874783,15), (1272791660,15), (1272708541,15), (1272625426,15), (1272542314,15),
    (1272459207,15), (1272376104,15), (1272293005,15), (1272209910,15), (1272126819,15), (1272043732,15), (1271960649,15), (1271877570,15), (1271794495,15), (1271711424,15), (1271628358,15), (1271545295,15), (1271462236,15), (1271379181,15), (1271296131,15), (1271213084,15),
    (1271130042,15), (1271047003,15), (1270963969,15), (1270880938,15), (1270797912,15), (1270714889,15), (1270631871,15), (1270548857,15), (1270465846,15), (1270382840,15), (1270299838,15), (1270216840,15), (1270133845,15), (1270050855,15), (1269967869,15), (1269884887,15),
    (1269801909,15), (1269718935,15), (1269635965,15), (1269552999,15), (1269470037,15), (1269387079,15), (1269304125,15), (1269221175,15), (1269138229,15), (1269055288,15), (1268972350,15), (1268889416,15), (1268806486,15), (1268723561,15), (1268640639,15), (1268557721,15),
    (1268474808,15), (1268391898,15), (1268308993,15), (1268226091,15), (1268143193,15), (1268060300,15), (1267977410,15), (1267894525,15), (1267811644,15), (1267728766,15), (1267645893,15), (1267563023,15), (1267480158,15), (1267397297,15), (1267314439,15), (1267231586,15),
    (1267148737,15), (1267065892,15), (1266983050,15), (1266900213,15), (1266817380,15), (1266734551,15), (1266651726,15), (1266568905,15), (1266486087,15), (1266403274,15), (1266320465,15), (1266237660,15), (1266154859,15), (1266072062,15), (1265989269,15), (1265906480,15),
    (1265823695,15), (1265740914,15), (1265658137,15), (1265575364,15), (1265492595,15), (1265409831,15), (1265327070,15), (1265244313,15), (1265161560,15), (1265078811,15), (1264996066,15), (1264913325,15), (1264830589,15), (1264747856,15), (1264665127,15), (1264582402,15),
    (1264499682,15), (1264416965,15), (1264334252,15), (1264251543,15), (1264168839,15), (1264086138,15), (1264003441,15), (1263920748,15), (1263838060,15), (1263755375,15), (1263672694,15), (1263590018,15), (1263507345,15), (1263424676,15), (1263342012,15), (1263259351,15),
    (1263176695,15), (1263094042,15), (1263011393,15), (1262928749,15), (1262846108,15), (1262763472,15), (1262680839,15), (1262598210,15), (1262515586,15), (1262432965,15), (1262350349,15), (1262267736,15), (1262185127,15), (1262102523,15), (1262019922,15), (1261937326,15),
    (1261854733,15), (1261772145,15), (1261689560,15), (1261606980,15), (1261524403,15), (1261441830,15), (1261359262,15), (1261276697,15), (1261194137,15), (1261111580,15), (1261029028,15), (1260946479,15), (1260863934,15), (1260781394,15), (1260698857,15), (1260616325,15),
    (1260533796,15), (1260451272,15), (1260368751,15), (1260286234,15), (1260203722,15), (1260121213,15), (1260038709,15), (1259956208,15), (1259873711,15), (1259791219,15), (1259708730,15), (1259626246,15), (1259543765,15), (1259461288,15), (1259378816,15), (1259296347,15),
    (1259213882,15), (1259131422,15), (1259048965,15), (1258966512,15), (1258884064,15), (1258801619,15), (1258719178,15), (1258636742,15), (1258554309,15), (1258471880,15), (1258389455,15), (1258307035,15), (1258224618,15), (1258142205,15), (1258059796,15), (1257977391,15),
    (1257894991,15), (1257812594,15), (1257730201,15), (1257647812,15), (1257565427,15), (1257483046,15), (1257400669,15), (1257318297,15), (1257235928,15), (1257153563,15), (1257071202,15), (1256988845,15), (1256906492,15), (1256824143,15), (1256741798,15), (1256659457,15),
    (1256577120,15), (1256494787,15), (1256412457,15), (1256330132,15), (1256247811,15), (1256165494,15), (1256083181,15), (1256000872,15), (1255918567,15), (1255836265,15), (1255753968,15), (1255671675,15), (1255589386,15), (1255507100,15), (1255424819,15), (1255342542,15),
    (1255260268,15), (1255177999,15), (1255095733,15), (1255013472,15), (1254931215,15), (1254848961,15), (1254766712,15), (1254684466,15), (1254602225,15), (1254519987,15), (1254437753,15), (1254355524,15), (1254273298,15), (1254191076,15), (1254108859,15), (1254026645,15),
    (1253944435,15), (1253862230,15), (1253780028,15), (1253697830,15), (1253615636,15), (1253533446,15), (1253451260,15), (1253369078,15), (1253286900,15), (1253204726,15), (1253122556,15), (1253040390,15), (1252958228,15), (1252876070,15), (1252793916,15), (1252711766,15),
    (1252629620,15), (1252547477,15), (1252465339,15), (1252383205,15), (1252301075,15), (1252218948,15), (1252136826,15), (1252054707,15), (1251972593,15), (1251890482,15), (1251808376,15), (1251726273,15), (1251644175,15), (1251562080,15), (1251479990,15), (1251397903,15),
    (1251315820,15), (1251233741,15), (1251151667,15), (1251069596,15), (1250987529,15), (1250905466,15), (1250823407,15), (1250741352,15), (1250659301,15), (1250577254,15), (1250495211,15), (1250413172,15), (1250331137,15), (1250249105,15), (1250167078,15), (1250085055,15),
    (1250003035,15), (1249921020,15), (1249839009,15), (1249757001,15), (1249674998,15), (1249592998,15), (1249511003,15), (1249429011,15), (1249347023,15), (1249265040,15), (1249183060,15), (1249101084,15), (1249019112,15), (1248937144,15), (1248855181,15), (1248773221,15),
    (1248691265,15), (1248609312,15), (1248527364,15), (1248445420,15), (1248363480,15), (1248281544,15), (1248199612,15), (1248117683,15), (1248035759,15), (1247953838,15), (1247871922,15), (1247790009,15), (1247708101,15), (1247626196,15), (1247544296,15), (1247462399,15),
    (1247380506,15), (1247298617,15), (1247216733,15), (1247134852,15), (1247052975,15), (1246971102,15), (1246889233,15), (1246807368,15), (1246725506,15), (1246643649,15), (1246561796,15), (1246479947,15), (1246398101,15), (1246316260,15), (1246234422,15), (1246152589,15),
    (1246070759,15), (1245988934,15), (1245907112,15), (1245825294,15), (1245743480,15), (1245661671,15), (1245579865,15), (1245498063,15), (1245416265,15), (1245334471,15), (1245252680,15), (1245170894,15), (1245089112,15), (1245007334,15), (1244925559,15), (1244843789,15),
    (1244762022,15), (1244680260,15), (1244598501,15), (1244516747,15), (1244434996,15), (1244353249,15), (1244271506,15), (1244189767,15), (1244108033,15), (1244026302,15), (1243944574,15), (1243862851,15), (1243781132,15), (1243699417,15), (1243617706,15), (1243535998,15),
    (1243454295,15), (1243372595,15), (1243290900,15), (1243209208,15), (1243127520,15), (1243045837,15), (1242964157,15), (1242882481,15), (1242800809,15), (1242719141,15), (1242637477,15), (1242555817,15), (1242474160,15), (1242392508,15), (1242310860,15), (1242229215,15),
    (1242147575,15), (1242065938,15), (1241984306,15), (1241902677,15), (1241821052,15), (1241739431,15), (1241657815,15), (1241576202,15), (1241494593,15), (1241412988,15), (1241331386,15), (1241249789,15), (1241168196,15), (1241086606,15), (1241005021,15), (1240923439,15),
    (1240841862,15), (1240760288,15), (1240678718,15), (1240597153,15), (1240515591,15), (1240434033,15), (1240352479,15), (1240270929,15), (1240189382,15), (1240107840,15), (1240026302,15), (1239944767,15), (1239863237,15), (1239781710,15), (1239700188,15), (1239618669,15),
    (1239537154,15), (1239455643,15), (1239374136,15), (1239292633,15), (1239211134,15), (1239129639,15), (1239048148,15), (1238966661,15), (1238885177,15), (1238803698,15), (1238722222,15), (1238640751,15), (1238559283,15), (1238477819,15), (1238396359,15), (1238314903,15),
    (1238233451,15), (1238152003,15), (1238070559,15), (1237989118,15), (1237907682,15), (1237826250,15), (1237744821,15), (1237663397,15), (1237581976,15), (1237500559,15), (1237419146,15), (1237337737,15), (1237256332,15), (1237174931,15), (1237093534,15), (1237012141,15),
    (1236930751,15), (1236849366,15), (1236767984,15), (1236686607,15), (1236605233,15), (1236523863,15), (1236442497,15), (1236361135,15), (1236279777,15), (1236198423,15), (1236117073,15), (1236035726,15), (1235954384,15), (1235873045,15), (1235791711,15), (1235710380,15),
    (1235629053,15), (1235547730,15), (1235466412,15), (1235385096,15), (1235303785,15), (1235222478,15), (1235141175,15), (1235059875,15), (1234978580,15), (1234897288,15), (1234816001,15), (1234734717,15), (1234653437,15), (1234572161,15), (1234490889,15), (1234409621,15),
    (1234328356,15), (1234247096,15), (1234165840,15), (1234084587,15), (1234003338,15), (1233922094,15), (1233840853,15), (1233759616,15), (1233678383,15), (1233597154,15), (1233515929,15), (1233434707,15), (1233353490,15), (1233272276,15), (1233191067,15), (1233109861,15),
    (1233028659,15), (1232947461,15), (1232866267,15), (1232785077,15), (1232703891,15), (1232622709,15), (1232541530,15), (1232460356,15), (1232379185,15), (1232298019,15), (1232216856,15), (1232135697,15), (1232054542,15), (1231973391,15), (1231892243,15), (1231811100,15),
    (1231729961,15), (1231648825,15), (1231567694,15), (1231486566,15), (1231405442,15), (1231324322,15), (1231243206,15), (1231162094,15), (1231080986,15), (1230999881,15), (1230918781,15), (1230837684,15), (1230756591,15), (1230675503,15), (1230594418,15), (1230513337,15),
    (1230432260,15), (1230351186,15), (1230270117,15), (1230189052,15), (1230107990,15), (1230026932,15), (1229945879,15), (1229864829,15), (1229783783,15), (1229702741,15), (1229621702,15), (1229540668,15), (1229459638,15), (1229378611,15), (1229297589,15), (1229216570,15),
    (1229135555,15), (1229054544,15), (1228973537,15), (1228892534,15), (1228811534,15), (1228730539,15), (1228649547,15), (1228568560,15), (1228487576,15), (1228406596,15), (1228325620,15), (1228244648,15), (1228163679,15), (1228082715,15), (1228001755,15), (1227920798,15),
    (1227839845,15), (1227758896,15), (1227677952,15), (1227597010,15), (1227516073,15), (1227435140,15), (1227354211,15), (1227273285,15), (1227192363,15), (1227111446,15), (1227030532,15), (1226949622,15), (1226868715,15), (1226787813,15), (1226706915,15), (1226626020,15),
    (1226545130,15), (1226464243,15), (1226383360,15), (1226302481,15), (1226221606,15), (1226140735,15), (1226059867,15), (1225979004,15), (1225898144,15), (1225817289,15), (1225736437,15), (1225655589,15), (1225574745,15), (1225493904,15), (1225413068,15), (1225332236,15),
    (1225251407,15), (1225170582,15), (1225089761,15), (1225008944,15), (1224928131,15), (1224847322,15), (1224766517,15), (1224685715,15), (1224604918,15), (1224524124,15), (1224443334,15), (1224362548,15), (1224281766,15), (1224200988,15), (1224120213,15), (1224039443,15),
    (1223958676,15), (1223877913,15), (1223797154,15), (1223716399,15), (1223635648,15), (1223554901,15), (1223474157,15), (1223393418,15), (1223312682,15), (1223231950,15), (1223151222,15), (1223070498,15), (1222989778,15), (1222909062,15), (1222828349,15), (1222747640,15),
    (1222666936,15), (1222586235,15), (1222505538,15), (1222424845,15), (1222344155,15), (1222263470,15), (1222182788,15), (1222102111,15), (1222021437,15), (1221940767,15), (1221860101,15), (1221779438,15), (1221698780,15), (1221618125,15), (1221537475,15), (1221456828,15),
    (1221376185,15), (1221295546,15), (1221214910,15), (1221134279,15), (1221053652,15), (1220973028,15), (1220892408,15), (1220811792,15), (1220731180,15), (1220650572,15), (1220569967,15), (1220489367,15), (1220408770,15), (1220328178,15), (1220247589,15), (1220167003,15),
    (1220086422,15), (1220005845,15), (1219925271,15), (1219844702,15), (1219764136,15), (1219683574,15), (1219603016,15), (1219522462,15), (1219441911,15), (1219361365,15), (1219280822,15), (1219200283,15), (1219119748,15), (1219039217,15), (1218958690,15), (1218878166,15),
    (1218797647,15), (1218717131,15), (1218636619,15), (1218556111,15), (1218475607,15), (1218395107,15), (1218314610,15), (1218234118,15), (1218153629,15), (1218073144,15), (1217992663,15), (1217912186,15), (1217831713,15), (1217751243,15), (1217670777,15), (1217590316,15),
    (1217509858,15), (1217429403,15), (1217348953,15), (1217268507,15), (1217188064,15), (1217107625,15), (1217027191,15), (1216946760,15), (1216866332,15), (1216785909,15), (1216705489,15), (1216625074,15), (1216544662,15), (1216464254,15), (1216383850,15), (1216303450,15),
    (1216223053,15), (1216142661,15), (1216062272,15), (1215981887,15), (1215901506,15), (1215821129,15), (1215740755,15), (1215660386,15), (1215580020,15), (1215499658,15), (1215419300,15), (1215338946,15), (1215258596,15), (1215178249,15), (1215097906,15), (1215017568,15),
    (1214937233,15), (1214856901,15), (1214776574,15), (1214696251,15), (1214615931,15), (1214535615,15), (1214455303,15), (1214374995,15), (1214294691,15), (1214214390,15), (1214134094,15), (1214053801,15), (1213973512,15), (1213893227,15), (1213812946,15), (1213732668,15),
    (1213652395,15), (1213572125,15), (1213491859,15), (1213411597,15), (1213331339,15), (1213251084,15), (1213170834,15), (1213090587,15), (1213010344,15), (1212930105,15), (1212849869,15), (1212769638,15), (1212689410,15), (1212609187,15), (1212528967,15), (1212448751,15),
    (1212368538,15), (1212288330,15), (1212208125,15), (1212127924,15), (1212047727,15), (1211967534,15), (1211887345,15), (1211807159,15), (1211726978,15), (1211646800,15), (1211566626,15), (1211486456,15), (1211406289,15), (1211326127,15), (1211245968,15), (1211165813,15),
    (1211085662,15), (1211005515,15), (1210925372,15), (1210845232,15), (1210765096,15), (1210684964,15), (1210604836,15), (1210524712,15), (1210444592,15), (1210364475,15), (1210284362,15), (1210204253,15), (1210124148,15), (1210044047,15), (1209963949,15), (1209883855,15),
    (1209803766,15), (1209723680,15), (1209643597,15), (1209563519,15), (1209483444,15), (1209403373,15), (1209323307,15), (1209243243,15), (1209163184,15), (1209083129,15), (1209003077,15), (1208923029,15), (1208842985,15), (1208762945,15), (1208682908,15), (1208602876,15),
    (1208522847,15), (1208442822,15), (1208362801,15), (1208282784,15), (1208202770,15), (1208122760,15), (1208042755,15), (1207962753,15), (1207882754,15), (1207802760,15), (1207722769,15), (1207642782,15), (1207562799,15), (1207482820,15), (1207402845,15), (1207322873,15),
    (1207242906,15), (1207162942,15), (1207082982,15), (1207003025,15), (1206923073,15), (1206843124,15), (1206763179,15), (1206683238,15), (1206603301,15), (1206523367,15), (1206443438,15), (1206363512,15), (1206283590,15), (1206203672,15), (1206123757,15), (1206043847,15),
    (1205963940,15), (1205884037,15), (1205804138,15), (1205724243,15), (1205644351,15), (1205564463,15), (1205484579,15), (1205404699,15), (1205324823,15), (1205244950,15), (1205165082,15), (1205085217,15), (1205005356,15), (1204925498,15), (1204845645,15), (1204765795,15),
    (1204685949,15), (1204606107,15), (1204526269,15), (1204446435,15), (1204366604,15), (1204286777,15), (1204206954,15), (1204127135,15), (1204047319,15), (1203967508,15), (1203887700,15), (1203807896,15), (1203728095,15), (1203648299,15), (1203568506,15), (1203488717,15),
    (1203408932,15), (1203329151,15), (1203249374,15), (1203169600,15), (1203089830,15), (1203010064,15), (1202930302,15), (1202850543,15), (1202770789,15), (1202691038,15), (1202611291,15), (1202531547,15), (1202451808,15), (1202372072,15), (1202292340,15), (1202212612,15),
    (1202132888,15), (1202053167,15), (1201973451,15), (1201893738,15), (1201814029,15), (1201734323,15), (1201654622,15), (1201574924,15), (1201495230,15), (1201415540,15), (1201335854,15), (1201256171,15), (1201176492,15), (1201096817,15), (1201017146,15), (1200937479,15),
    (1200857815,15), (1200778155,15), (1200698499,15), (1200618847,15), (1200539199,15), (1200459554,15), (1200379913,15), (1200300276,15), (1200220643,15), (1200141013,15), (1200061387,15), (1199981765,15), (1199902147,15), (1199822533,15), (1199742922,15), (1199663316,15),
    (1199583713,15), (1199504113,15), (1199424518,15), (1199344926,15), (1199265338,15), (1199185754,15), (1199106174,15), (1199026598,15), (1198947025,15), (1198867456,15), (1198787891,15), (1198708329,15), (1198628772,15), (1198549218,15), (1198469668,15), (1198390122,15),
    (1198310579,15), (1198231041,15), (1198151506,15), (1198071975,15), (1197992447,15), (1197912924,15), (1197833404,15), (1197753888,15), (1197674376,15), (1197594867,15), (1197515363,15), (1197435862,15), (1197356365,15), (1197276871,15), (1197197382,15), (1197117896,15),
    (1197038414,15), (1196958936,15), (1196879462,15), (1196799991,15), (1196720524,15), (1196641061,15), (1196561602,15), (1196482146,15), (1196402694,15), (1196323246,15), (1196243802,15), (1196164362,15), (1196084925,15), (1196005492,15), (1195926063,15), (1195846638,15),
    (1195767216,15), (1195687798,15), (1195608384,15), (1195528974,15), (1195449568,15), (1195370165,15), (1195290766,15), (1195211371,15), (1195131979,15), (1195052592,15), (1194973208,15), (1194893828,15), (1194814452,15), (1194735079,15), (1194655710,15), (1194576345,15),
    (1194496984,15), (1194417627,15), (1194338273,15), (1194258923,15), (1194179577,15), (1194100234,15), (1194020896,15), (1193941561,15), (1193862230,15), (1193782903,15), (1193703579,15), (1193624259,15), (1193544943,15), (1193465631,15), (1193386322,15), (1193307018,15),
    (1193227717,15), (1193148420,15), (1193069126,15), (1192989837,15), (1192910551,15), (1192831268,15), (1192751990,15), (1192672716,15), (1192593445,15), (1192514178,15), (1192434914,15), (1192355655,15), (1192276399,15), (1192197147,15), (1192117899,15), (1192038654,15),
    (1191959413,15), (1191880176,15), (1191800943,15), (1191721714,15), (1191642488,15), (1191563266,15), (1191484048,15), (1191404833,15), (1191325623,15), (1191246416,15), (1191167213,15), (1191088013,15), (1191008818,15), (1190929626,15), (1190850437,15), (1190771253,15),
    (1190692073,15), (1190612896,15), (1190533723,15), (1190454553,15), (1190375388,15), (1190296226,15), (1190217068,15), (1190137913,15), (1190058763,15), (1189979616,15), (1189900473,15), (1189821334,15), (1189742198,15), (1189663066,15), (1189583938,15), (1189504814,15),
    (1189425693,15), (1189346576,15), (1189267463,15), (1189188354,15), (1189109249,15), (1189030147,15), (1188951049,15), (1188871954,15), (1188792864,15), (1188713777,15), (1188634694,15), (1188555615,15), (1188476539,15), (1188397467,15), (1188318399,15), (1188239335,15),
    (1188160274,15), (1188081218,15), (1188002165,15), (1187923115,15), (1187844070,15), (1187765028,15), (1187685990,15), (1187606955,15), (1187527925,15), (1187448898,15), (1187369875,15), (1187290856,15), (1187211840,15), (1187132828,15), (1187053820,15), (1186974816,15),
    (1186895815,15), (1186816818,15), (1186737825,15), (1186658836,15), (1186579850,15), (1186500868,15), (1186421890,15), (1186342915,15), (1186263945,15), (1186184978,15), (1186106015,15), (1186027055,15), (1185948099,15), (1185869147,15), (1185790199,15), (1185711255,15),
    (1185632314,15), (1185553377,15), (1185474444,15), (1185395514,15), (1185316588,15), (1185237666,15), (1185158748,15), (1185079833,15), (1185000922,15), (1184922015,15), (1184843112,15), (1184764212,15), (1184685316,15), (1184606424,15), (1184527536,15), (1184448651,15),
    (1184369770,15), (1184290893,15), (1184212019,15), (1184133149,15), (1184054283,15), (1183975421,15), (1183896563,15), (1183817708,15), (1183738857,15), (1183660009,15), (1183581166,15), (1183502326,15), (1183423490,15), (1183344657,15), (1183265828,15), (1183187003,15),
    (1183108182,15), (1183029365,15), (1182950551,15), (1182871741,15), (1182792935,15), (1182714132,15), (1182635333,15), (1182556538,15), (1182477746,15), (1182398959,15), (1182320175,15), (1182241395,15), (1182162618,15), (1182083845,15), (1182005076,15), (1181926311,15),
    (1181847549,15), (1181768792,15), (1181690037,15), (1181611287,15), (1181532540,15), (1181453797,15), (1181375058,15), (1181296323,15), (1181217591,15), (1181138863,15), (1181060138,15), (1180981418,15), (1180902701,15), (1180823988,15), (1180745278,15), (1180666573,15),
    (1180587871,15), (1180509172,15), (1180430478,15), (1180351787,15), (1180273100,15), (1180194416,15), (1180115737,15), (1180037061,15), (1179958389,15), (1179879720,15), (1179801055,15), (1179722394,15), (1179643737,15), (1179565083,15), (1179486433,15), (1179407787,15),
    (1179329145,15), (1179250506,15), (1179171871,15), (1179093239,15), (1179014612,15), (1178935988,15), (1178857368,15), (1178778751,15), (1178700139,15), (1178621530,15), (1178542924,15), (1178464323,15), (1178385725,15), (1178307131,15), (1178228540,15), (1178149953,15),
    (1178071370,15), (1177992791,15), (1177914215,15), (1177835644,15), (1177757075,15), (1177678511,15), (1177599950,15), (1177521393,15), (1177442840,15), (1177364290,15), (1177285744,15), (1177207202,15), (1177128664,15), (1177050129,15), (1176971598,15), (1176893070,15),
    (1176814547,15), (1176736027,15), (1176657511,15), (1176578998,15), (1176500489,15), (1176421984,15), (1176343483,15), (1176264985,15), (1176186491,15), (1176108001,15), (1176029514,15), (1175951032,15), (1175872552,15), (1175794077,15), (1175715605,15), (1175637137,15),
    (1175558673,15), (1175480212,15), (1175401755,15), (1175323302,15), (1175244853,15), (1175166407,15), (1175087965,15), (1175009526,15), (1174931092,15), (1174852661,15), (1174774234,15), (1174695810,15), (1174617390,15), (1174538974,15), (1174460561,15), (1174382153,15),
    (1174303748,15), (1174225346,15), (1174146949,15), (1174068555,15), (1173990164,15), (1173911778,15), (1173833395,15), (1173755016,15), (1173676640,15), (1173598269,15), (1173519900,15), (1173441536,15), (1173363175,15), (1173284818,15), (1173206465,15), (1173128116,15),
    (1173049770,15), (1172971428,15), (1172893089,15), (1172814754,15), (1172736423,15), (1172658096,15), (1172579772,15), (1172501452,15), (1172423136,15), (1172344823,15), (1172266514,15), (1172188209,15), (1172109907,15), (1172031610,15), (1171953315,15), (1171875025,15),
    (1171796738,15), (1171718455,15), (1171640176,15), (1171561900,15), (1171483628,15), (1171405360,15), (1171327095,15), (1171248834,15), (1171170577,15), (1171092324,15), (1171014074,15), (1170935828,15), (1170857585,15), (1170779346,15), (1170701111,15), (1170622880,15),
    (1170544652,15), (1170466428,15), (1170388208,15), (1170309991,15), (1170231778,15), (1170153569,15), (1170075363,15), (1169997161,15), (1169918963,15), (1169840769,15), (1169762578,15), (1169684391,15), (1169606207,15), (1169528027,15), (1169449851,15), (1169371679,15),
    (1169293510,15), (1169215345,15), (1169137184,15), (1169059026,15), (1168980872,15), (1168902722,15), (1168824575,15), (1168746432,15), (1168668293,15), (1168590157,15), (1168512026,15), (1168433897,15), (1168355773,15), (1168277652,15), (1168199535,15), (1168121421,15),
    (1168043311,15), (1167965205,15), (1167887103,15), (1167809004,15), (1167730909,15), (1167652818,15), (1167574730,15), (1167496646,15), (1167418566,15), (1167340489,15), (1167262416,15), (1167184346,15), (1167106281,15), (1167028219,15), (1166950161,15), (1166872106,15),
    (1166794055,15), (1166716008,15), (1166637964,15), (1166559924,15), (1166481888,15), (1166403855,15), (1166325826,15), (1166247801,15), (1166169780,15), (1166091762,15), (1166013748,15), (1165935737,15), (1165857730,15), (1165779727,15), (1165701727,15), (1165623732,15),
    (1165545739,15), (1165467751,15), (1165389766,15), (1165311785,15), (1165233807,15), (1165155834,15), (1165077863,15), (1164999897,15), (1164921934,15), (1164843975,15), (1164766020,15), (1164688068,15), (1164610120,15), (1164532175,15), (1164454234,15), (1164376297,15),
    (1164298364,15), (1164220434,15), (1164142508,15), (1164064586,15), (1163986667,15), (1163908752,15), (1163830840,15), (1163752932,15), (1163675028,15), (1163597128,15), (1163519231,15), (1163441338,15), (1163363448,15), (1163285563,15), (1163207681,15), (1163129802,15),
    (1163051927,15), (1162974056,15), (1162896189,15), (1162818325,15), (1162740465,15), (1162662608,15), (1162584755,15), (1162506906,15), (1162429061,15), (1162351219,15), (1162273381,15), (1162195546,15), (1162117715,15), (1162039888,15), (1161962065,15), (1161884245,15),
    (1161806429,15), (1161728616,15), (1161650807,15), (1161573002,15), (1161495200,15), (1161417402,15), (1161339608,15), (1161261818,15), (1161184031,15), (1161106247,15), (1161028468,15), (1160950692,15), (1160872919,15), (1160795151,15), (1160717386,15), (1160639624,15),
    (1160561867,15), (1160484113,15), (1160406362,15), (1160328616,15), (1160250872,15), (1160173133,15), (1160095397,15), (1160017665,15), (1159939937,15), (1159862212,15), (1159784491,15), (1159706773,15), (1159629059,15), (1159551349,15), (1159473643,15), (1159395940,15),
    (1159318241,15), (1159240545,15), (1159162853,15), (1159085165,15), (1159007480,15), (1158929799,15), (1158852122,15), (1158774448,15), (1158696778,15), (1158619112,15), (1158541449,15), (1158463790,15), (1158386134,15), (1158308483,15), (1158230834,15), (1158153190,15),
    (1158075549,15), (1157997912,15), (1157920278,15), (1157842648,15), (1157765022,15), (1157687400,15), (1157609781,15), (1157532165,15), (1157454554,15), (1157376946,15), (1157299341,15), (1157221740,15), (1157144143,15), (1157066550,15), (1156988960,15), (1156911374,15),
    (1156833791,15), (1156756212,15), (1156678637,15), (1156601066,15), (1156523498,15), (1156445933,15), (1156368373,15), (1156290816,15), (1156213262,15), (1156135712,15), (1156058166,15), (1155980624,15), (1155903085,15), (1155825550,15), (1155748018,15), (1155670490,15),
    (1155592966,15), (1155515446,15), (1155437929,15), (1155360415,15), (1155282905,15), (1155205399,15), (1155127897,15), (1155050398,15), (1154972903,15), (1154895411,15), (1154817924,15), (1154740439,15), (1154662959,15), (1154585482,15), (1154508008,15), (1154430539,15),
    (1154353073,15), (1154275610,15), (1154198151,15), (1154120696,15), (1154043245,15), (1153965797,15), (1153888352,15), (1153810912,15), (1153733475,15), (1153656041,15), (1153578612,15), (1153501186,15), (1153423763,15), (1153346344,15), (1153268929,15), (1153191517,15),
    (1153114109,15), (1153036705,15), (1152959304,15), (1152881907,15), (1152804514,15), (1152727124,15), (1152649738,15), (1152572355,15), (1152494976,15), (1152417601,15), (1152340230,15), (1152262861,15), (1152185497,15), (1152108136,15), (1152030779,15), (1151953426,15),
    (1151876076,15), (1151798729,15), (1151721387,15), (1151644048,15), (1151566712,15), (1151489381,15), (1151412053,15), (1151334728,15), (1151257407,15), (1151180090,15), (1151102776,15), (1151025466,15), (1150948160,15), (1150870857,15), (1150793558,15), (1150716262,15),
    (1150638971,15), (1150561682,15), (1150484398,15), (1150407117,15), (1150329839,15), (1150252565,15), (1150175295,15), (1150098029,15), (1150020766,15), (1149943506,15), (1149866251,15), (1149788999,15), (1149711750,15), (1149634505,15), (1149557264,15), (1149480027,15),
    (1149402793,15), (1149325562,15), (1149248336,15), (1149171112,15), (1149093893,15), (1149016677,15), (1148939465,15), (1148862256,15), (1148785051,15), (1148707850,15), (1148630652,15), (1148553458,15), (1148476267,15), (1148399080,15), (1148321897,15), (1148244717,15),
    (1148167541,15), (1148090369,15), (1148013200,15), (1147936034,15), (1147858873,15), (1147781715,15), (1147704560,15), (1147627409,15), (1147550262,15), (1147473119,15), (1147395979,15), (1147318842,15), (1147241710,15), (1147164580,15), (1147087455,15), (1147010333,15),
    (1146933215,15), (1146856100,15), (1146778989,15), (1146701881,15), (1146624778,15), (1146547677,15), (1146470581,15), (1146393488,15), (1146316398,15), (1146239312,15), (1146162230,15), (1146085152,15), (1146008077,15), (1145931005,15), (1145853937,15), (1145776873,15),
    (1145699813,15), (1145622756,15), (1145545702,15), (1145468653,15), (1145391606,15), (1145314564,15), (1145237525,15), (1145160490,15), (1145083458,15), (1145006430,15), (1144929405,15), (1144852384,15), (1144775367,15), (1144698353,15), (1144621343,15), (1144544337,15),
    (1144467334,15), (1144390335,15), (1144313339,15), (1144236347,15), (1144159358,15), (1144082373,15), (1144005392,15), (1143928414,15), (1143851440,15), (1143774470,15), (1143697503,15), (1143620540,15), (1143543580,15), (1143466624,15), (1143389671,15), (1143312722,15),
    (1143235777,15), (1143158835,15), (1143081897,15), (1143004963,15), (1142928032,15), (1142851105,15), (1142774181,15), (1142697261,15), (1142620344,15), (1142543431,15), (1142466522,15), (1142389616,15), (1142312714,15), (1142235816,15), (1142158921,15), (1142082029,15),
    (1142005142,15), (1141928257,15), (1141851377,15), (1141774500,15), (1141697627,15), (1141620757,15), (1141543891,15), (1141467028,15), (1141390169,15), (1141313314,15), (1141236462,15), (1141159614,15), (1141082769,15), (1141005928,15), (1140929090,15), (1140852257,15),
    (1140775426,15), (1140698600,15), (1140621776,15), (1140544957,15), (1140468141,15), (1140391329,15), (1140314520,15), (1140237715,15), (1140160913,15), (1140084115,15), (1140007321,15), (1139930530,15), (1139853743,15), (1139776959,15), (1139700179,15), (1139623403,15),
    (1139546630,15), (1139469861,15), (1139393095,15), (1139316333,15), (1139239574,15), (1139162819,15), (1139086068,15), (1139009320,15), (1138932576,15), (1138855835,15), (1138779098,15), (1138702365,15), (1138625635,15), (1138548909,15), (1138472186,15), (1138395467,15),
    (1138318752,15), (1138242040,15), (1138165331,15), (1138088626,15), (1138011925,15), (1137935228,15), (1137858534,15), (1137781843,15), (1137705156,15), (1137628473,15), (1137551793,15), (1137475117,15), (1137398445,15), (1137321776,15), (1137245110,15), (1137168448,15),
    (1137091790,15), (1137015136,15), (1136938484,15), (1136861837,15), (1136785193,15), (1136708553,15), (1136631916,15), (1136555283,15), (1136478653,15), (1136402027,15), (1136325405,15), (1136248786,15), (1136172170,15), (1136095559,15), (1136018950,15), (1135942346,15),
    (1135865745,15), (1135789147,15), (1135712554,15), (1135635963,15), (1135559377,15), (1135482793,15), (1135406214,15), (1135329638,15), (1135253065,15), (1135176497,15), (1135099931,15), (1135023370,15), (1134946811,15), (1134870257,15), (1134793706,15), (1134717158,15),
    (1134640615,15), (1134564074,15), (1134487538,15), (1134411004,15), (1134334475,15), (1134257949,15), (1134181426,15), (1134104907,15), (1134028392,15), (1133951880,15), (1133875372,15), (1133798868,15), (1133722367,15), (1133645869,15), (1133569375,15), (1133492885,15),
    (1133416398,15), (1133339915,15), (1133263435,15), (1133186959,15), (1133110487,15), (1133034018,15), (1132957552,15), (1132881091,15), (1132804632,15), (1132728178,15), (1132651726,15), (1132575279,15), (1132498835,15), (1132422394,15), (1132345958,15), (1132269524,15),
    (1132193095,15), (1132116668,15), (1132040246,15), (1131963827,15), (1131887411,15), (1131810999,15), (1131734591,15), (1131658186,15), (1131581785,15), (1131505387,15), (1131428993,15), (1131352602,15), (1131276215,15), (1131199832,15), (1131123452,15), (1131047076,15),
    (1130970703,15), (1130894334,15), (1130817968,15), (1130741606,15), (1130665247,15), (1130588892,15), (1130512541,15), (1130436193,15), (1130359849,15), (1130283508,15), (1130207171,15), (1130130837,15), (1130054507,15), (1129978180,15), (1129901857,15), (1129825538,15),
    (1129749222,15), (1129672910,15), (1129596601,15), (1129520296,15), (1129443994,15), (1129367696,15), (1129291402,15), (1129215111,15), (1129138823,15), (1129062539,15), (1128986259,15), (1128909982,15), (1128833709,15), (1128757439,15), (1128681173,15), (1128604910,15),
    (1128528651,15), (1128452396,15), (1128376144,15), (1128299895,15), (1128223651,15), (1128147409,15), (1128071172,15), (1127994937,15), (1127918707,15), (1127842480,15), (1127766256,15), (1127690036,15), (1127613820,15), (1127537607,15), (1127461397,15), (1127385191,15),
    (1127308989,15), (1127232790,15), (1127156595,15), (1127080404,15), (1127004216,15), (1126928031,15), (1126851850,15), (1126775673,15), (1126699499,15), (1126623328,15), (1126547161,15), (1126470998,15), (1126394838,15), (1126318682,15), (1126242530,15), (1126166381,15),
    (1126090235,15), (1126014093,15), (1125937954,15), (1125861820,15), (1125785688,15), (1125709560,15), (1125633436,15), (1125557315,15), (1125481198,15), (1125405084,15), (1125328974,15), (1125252868,15), (1125176764,15), (1125100665,15), (1125024569,15), (1124948476,15),
    (1124872388,15), (1124796302,15), (1124720220,15), (1124644142,15), (1124568067,15), (1124491996,15), (1124415928,15), (1124339864,15), (1124263804,15), (1124187746,15), (1124111693,15), (1124035643,15), (1123959596,15), (1123883554,15), (1123807514,15), (1123731478,15),
    (1123655446,15), (1123579417,15), (1123503392,15), (1123427370,15), (1123351352,15), (1123275337,15), (1123199326,15), (1123123319,15), (1123047314,15), (1122971314,15), (1122895317,15), (1122819323,15), (1122743334,15), (1122667347,15), (1122591364,15), (1122515385,15),
    (1122439409,15), (1122363437,15), (1122287468,15), (1122211503,15), (1122135541,15), (1122059583,15), (1121983628,15), (1121907677,15), (1121831730,15), (1121755786,15), (1121679845,15), (1121603908,15), (1121527975,15), (1121452045,15), (1121376118,15), (1121300195,15),
    (1121224276,15), (1121148360,15), (1121072448,15), (1120996539,15), (1120920634,15), (1120844732,15), (1120768834,15), (1120692939,15), (1120617048,15), (1120541160,15), (1120465276,15), (1120389396,15), (1120313519,15), (1120237645,15), (1120161775,15), (1120085909,15),
    (1120010046,15), (1119934186,15), (1119858330,15), (1119782478,15), (1119706629,15), (1119630784,15), (1119554942,15), (1119479104,15), (1119403269,15), (1119327438,15), (1119251610,15), (1119175786,15), (1119099965,15), (1119024148,15), (1118948334,15), (1118872524,15),
    (1118796717,15), (1118720914,15), (1118645115,15), (1118569318,15), (1118493526,15), (1118417737,15), (1118341951,15), (1118266169,15), (1118190391,15), (1118114616,15), (1118038844,15), (1117963076,15), (1117887312,15), (1117811551,15), (1117735794,15), (1117660040,15),
    (1117584289,15), (1117508543,15), (1117432799,15), (1117357059,15), (1117281323,15), (1117205590,15), (1117129861,15), (1117054135,15), (1116978413,15), (1116902694,15), (1116826979,15), (1116751267,15), (1116675559,15), (1116599854,15), (1116524153,15), (1116448456,15),
    (1116372761,15), (1116297071,15), (1116221384,15), (1116145700,15), (1116070020,15), (1115994343,15), (1115918670,15), (1115843001,15), (1115767335,15), (1115691672,15), (1115616013,15), (1115540357,15), (1115464705,15), (1115389057,15), (1115313412,15), (1115237770,15),
    (1115162132,15), (1115086498,15), (1115010867,15), (1114935239,15), (1114859615,15), (1114783995,15), (1114708378,15), (1114632764,15), (1114557154,15), (1114481548,15), (1114405945,15), (1114330345,15), (1114254750,15), (1114179157,15), (1114103568,15), (1114027983,15),
    (1113952401,15), (1113876822,15), (1113801247,15), (1113725676,15), (1113650108,15), (1113574544,15), (1113498983,15), (1113423425,15), (1113347871,15), (1113272321,15), (1113196774,15), (1113121231,15), (1113045691,15), (1112970154,15), (1112894621,15), (1112819092,15),
    (1112743566,15), (1112668044,15), (1112592525,15), (1112517009,15), (1112441497,15), (1112365989,15), (1112290484,15), (1112214983,15), (1112139485,15), (1112063990,15), (1111988499,15), (1111913012,15), (1111837528,15), (1111762047,15), (1111686571,15), (1111611097,15),
    (1111535627,15), (1111460161,15), (1111384698,15), (1111309238,15), (1111233782,15), (1111158330,15), (1111082881,15), (1111007435,15), (1110931993,15), (1110856555,15), (1110781120,15), (1110705688,15), (1110630260,15), (1110554836,15), (1110479415,15), (1110403997,15),
    (1110328583,15), (1110253172,15), (1110177765,15), (1110102362,15), (1110026962,15), (1109951565,15), (1109876172,15), (1109800782,15), (1109725396,15), (1109650013,15), (1109574634,15), (1109499259,15), (1109423886,15), (1109348518,15), (1109273153,15), (1109197791,15),
    (1109122433,15), (1109047078,15), (1108971727,15), (1108896379,15), (1108821034,15), (1108745694,15), (1108670356,15), (1108595023,15), (1108519692,15), (1108444365,15), (1108369042,15), (1108293722,15), (1108218406,15), (1108143093,15), (1108067783,15), (1107992477,15),
    (1107917175,15), (1107841876,15), (1107766580,15), (1107691288,15), (1107616000,15), (1107540715,15), (1107465433,15), (1107390155,15), (1107314881,15), (1107239609,15), (1107164342,15), (1107089078,15), (1107013817,15), (1106938560,15), (1106863306,15), (1106788056,15),
    (1106712809,15), (1106637566,15), (1106562326,15), (1106487090,15), (1106411857,15), (1106336628,15), (1106261402,15), (1106186179,15), (1106110960,15), (1106035745,15), (1105960533,15), (1105885324,15), (1105810119,15), (1105734918,15), (1105659720,15), (1105584525,15),
    (1105509334,15), (1105434146,15), (1105358962,15), (1105283782,15), (1105208604,15), (1105133431,15), (1105058260,15), (1104983094,15), (1104907930,15), (1104832770,15), (1104757614,15), (1104682461,15), (1104607312,15), (1104532166,15), (1104457023,15), (1104381884,15),
    (1104306749,15), (1104231617,15), (1104156488,15), (1104081363,15), (1104006241,15), (1103931123,15), (1103856009,15), (1103780897,15), (1103705790,15), (1103630685,15), (1103555585,15), (1103480487,15), (1103405393,15), (1103330303,15), (1103255216,15), (1103180133,15),
    (1103105053,15), (1103029976,15), (1102954903,15), (1102879833,15), (1102804767,15), (1102729705,15), (1102654645,15), (1102579590,15), (1102504537,15), (1102429489,15), (1102354443,15), (1102279401,15), (1102204363,15), (1102129328,15), (1102054297,15), (1101979269,15),
    (1101904244,15), (1101829223,15), (1101754205,15), (1101679191,15), (1101604180,15), (1101529173,15), (1101454169,15), (1101379169,15), (1101304172,15), (1101229179,15), (1101154189,15), (1101079203,15), (1101004220,15), (1100929240,15), (1100854264,15), (1100779291,15),
    (1100704322,15), (1100629357,15), (1100554394,15), (1100479436,15), (1100404480,15), (1100329528,15), (1100254580,15), (1100179635,15), (1100104694,15), (1100029756,15), (1099954821,15), (1099879890,15), (1099804962,15), (1099730038,15), (1099655118,15), (1099580200,15),
    (1099505287,15), (1099430376,15), (1099355469,15), (1099280566,15), (1099205666,15), (1099130769,15), (1099055876,15), (1098980987,15), (1098906101,15), (1098831218,15), (1098756339,15), (1098681463,15), (1098606590,15), (1098531722,15), (1098456856,15), (1098381994,15),
    (1098307136,15), (1098232281,15), (1098157429,15), (1098082581,15), (1098007736,15), (1097932895,15), (1097858057,15), (1097783223,15), (1097708392,15), (1097633564,15), (1097558740,15), (1097483920,15), (1097409103,15), (1097334289,15), (1097259479,15), (1097184672,15),
    (1097109869,15), (1097035069,15), (1096960272,15), (1096885479,15), (1096810690,15), (1096735904,15), (1096661121,15), (1096586342,15), (1096511566,15), (1096436794,15), (1096362025,15), (1096287260,15), (1096212498,15), (1096137739,15), (1096062984,15), (1095988233,15),
    (1095913485,15), (1095838740,15), (1095763999,15), (1095689261,15), (1095614526,15), (1095539795,15), (1095465068,15), (1095390344,15), (1095315623,15), (1095240906,15), (1095166192,15), (1095091482,15), (1095016775,15), (1094942072,15), (1094867372,15), (1094792676,15),
    (1094717983,15), (1094643293,15), (1094568607,15), (1094493924,15), (1094419245,15), (1094344569,15), (1094269896,15), (1094195227,15), (1094120562,15), (1094045900,15), (1093971241,15), (1093896586,15), (1093821934,15), (1093747286,15), (1093672641,15), (1093597999,15),
    (1093523361,15), (1093448727,15), (1093374096,15), (1093299468,15), (1093224844,15), (1093150223,15), (1093075605,15), (1093000991,15), (1092926381,15), (1092851774,15), (1092777170,15), (1092702570,15), (1092627973,15), (1092553380,15), (1092478790,15), (1092404203,15),
    (1092329620,15), (1092255041,15), (1092180465,15), (1092105892,15), (1092031322,15), (1091956757,15), (1091882194,15), (1091807635,15), (1091733080,15), (1091658527,15), (1091583979,15), (1091509433,15), (1091434891,15), (1091360353,15), (1091285818,15), (1091211286,15),
    (1091136758,15), (1091062234,15), (1090987712,15), (1090913194,15), (1090838680,15), (1090764169,15), (1090689661,15), (1090615157,15), (1090540657,15), (1090466159,15), (1090391666,15), (1090317175,15), (1090242688,15), (1090168205,15), (1090093724,15), (1090019248,15),
    (1089944774,15), (1089870305,15), (1089795838,15), (1089721375,15), (1089646915,15), (1089572459,15), (1089498007,15), (1089423557,15), (1089349111,15), (1089274669,15), (1089200230,15), (1089125794,15), (1089051362,15), (1088976933,15), (1088902508,15), (1088828086,15),
    (1088753668,15), (1088679252,15), (1088604841,15), (1088530433,15), (1088456028,15), (1088381626,15), (1088307228,15), (1088232834,15), (1088158443,15), (1088084055,15), (1088009671,15), (1087935290,15), (1087860912,15), (1087786538,15), (1087712168,15), (1087637801,15),
    (1087563437,15), (1087489076,15), (1087414720,15), (1087340366,15), (1087266016,15), (1087191669,15), (1087117326,15), (1087042986,15), (1086968650,15), (1086894317,15), (1086819987,15), (1086745661,15), (1086671338,15), (1086597019,15), (1086522703,15), (1086448390,15),
    (1086374081,15), (1086299776,15), (1086225473,15), (1086151174,15), (1086076879,15), (1086002587,15), (1085928298,15), (1085854013,15), (1085779731,15), (1085705453,15), (1085631178,15), (1085556906,15), (1085482638,15), (1085408374,15), (1085334112,15), (1085259854,15),
    (1085185600,15), (1085111349,15), (1085037101,15), (1084962857,15), (1084888616,15), (1084814379,15), (1084740145,15), (1084665914,15), (1084591687,15), (1084517463,15), (1084443243,15), (1084369026,15), (1084294812,15), (1084220602,15), (1084146395,15), (1084072192,15),
    (1083997992,15), (1083923795,15), (1083849602,15), (1083775412,15), (1083701226,15), (1083627043,15), (1083552864,15), (1083478688,15), (1083404515,15), (1083330346,15), (1083256180,15), (1083182017,15), (1083107858,15), (1083033703,15), (1082959550,15), (1082885401,15),
    (1082811256,15), (1082737114,15), (1082662975,15), (1082588840,15), (1082514708,15), (1082440580,15), (1082366455,15), (1082292333,15), (1082218215,15), (1082144100,15), (1082069989,15), (1081995881,15), (1081921776,15), (1081847675,15), (1081773577,15), (1081699483,15),
    (1081625391,15), (1081551304,15), (1081477220,15), (1081403139,15), (1081329061,15), (1081254987,15), (1081180917,15), (1081106850,15), (1081032786,15), (1080958725,15), (1080884668,15), (1080810615,15), (1080736564,15), (1080662517,15), (1080588474,15), (1080514434,15),
    (1080440397,15), (1080366364,15), (1080292334,15), (1080218308,15), (1080144285,15), (1080070265,15), (1079996249,15), (1079922236,15), (1079848226,15), (1079774220,15), (1079700218,15), (1079626218,15), (1079552222,15), (1079478230,15), (1079404241,15), (1079330255,15),
    (1079256273,15), (1079182294,15), (1079108318,15), (1079034346,15), (1078960377,15), (1078886412,15), (1078812450,15), (1078738491,15), (1078664536,15), (1078590584,15), (1078516636,15), (1078442691,15), (1078368749,15), (1078294811,15), (1078220876,15), (1078146944,15),
    (1078073016,15), (1077999092,15), (1077925170,15), (1077851252,15), (1077777338,15), (1077703427,15), (1077629519,15), (1077555615,15), (1077481714,15), (1077407816,15), (1077333922,15), (1077260031,15), (1077186143,15), (1077112259,15), (1077038379,15), (1076964501,15),
    (1076890628,15), (1076816757,15), (1076742890,15), (1076669026,15), (1076595166,15), (1076521309,15), (1076447455,15), (1076373605,15), (1076299758,15), (1076225915,15), (1076152075,15), (1076078238,15), (1076004405,15), (1075930575,15), (1075856748,15), (1075782925,15),
    (1075709105,15), (1075635289,15), (1075561476,15), (1075487666,15), (1075413860,15), (1075340057,15), (1075266258,15), (1075192461,15), (1075118669,15), (1075044879,15), (1074971093,15), (1074897311,15), (1074823532,15), (1074749756,15), (1074675983,15), (1074602214,15),
    (1074528449,15), (1074454686,15), (1074380927,15), (1074307172,15), (1074233420,15), (1074159671,15), (1074085925,15), (1074012183,15), (1073938445,15), (1073864709,15), (1073790977,15), (1073717249,15), (1073643523,15), (1073569802,15), (1073496083,15), (1073422368,15),
    (1073348656,15), (1073274948,15), (1073201243,15), (1073127542,15), (1073053843,15), (1072980149,15), (1072906457,15), (1072832769,15), (1072759084,15), (1072685403,15), (1072611725,15), (1072538051,15), (1072464379,15), (1072390711,15), (1072317047,15), (1072243386,15),
    (1072169728,15), (1072096074,15), (1072022423,15), (1071948775,15), (1071875131,15), (1071801490,15), (1071727852,15), (1071654218,15), (1071580588,15), (1071506960,15), (1071433336,15), (1071359715,15), (1071286098,15), (1071212484,15), (1071138874,15), (1071065266,15),
    (1070991662,15), (1070918062,15), (1070844465,15), (1070770871,15), (1070697281,15), (1070623694,15), (1070550110,15), (1070476530,15), (1070402953,15), (1070329379,15), (1070255809,15), (1070182242,15), (1070108679,15), (1070035119,15), (1069961562,15), (1069888009,15),
    (1069814459,15), (1069740912,15), (1069667369,15), (1069593829,15), (1069520292,15), (1069446759,15), (1069373229,15), (1069299703,15), (1069226180,15), (1069152660,15), (1069079143,15), (1069005630,15), (1068932121,15), (1068858614,15), (1068785111,15), (1068711612,15),
    (1068638116,15), (1068564623,15), (1068491133,15), (1068417647,15), (1068344164,15), (1068270685,15), (1068197209,15), (1068123736,15), (1068050267,15), (1067976801,15), (1067903338,15), (1067829879,15), (1067756423,15), (1067682970,15), (1067609521,15), (1067536075,15),
    (1067462633,15), (1067389193,15), (1067315758,15), (1067242325,15), (1067168896,15), (1067095470,15), (1067022048,15), (1066948629,15), (1066875213,15), (1066801801,15), (1066728392,15), (1066654986,15), (1066581584,15), (1066508185,15), (1066434789,15), (1066361397,15),
    (1066288008,15), (1066214623,15), (1066141241,15), (1066067862,15), (1065994486,15), (1065921114,15), (1065847746,15), (1065774380,15), (1065701018,15), (1065627659,15), (1065554304,15), (1065480952,15), (1065407603,15), (1065334258,15), (1065260916,15), (1065187578,15),
    (1065114242,15), (1065040910,15), (1064967582,15), (1064894257,15), (1064820935,15), (1064747616,15), (1064674301,15), (1064600989,15), (1064527681,15), (1064454376,15), (1064381074,15), (1064307775,15), (1064234480,15), (1064161188,15), (1064087900,15), (1064014615,15),
    (1063941333,15), (1063868055,15), (1063794780,15), (1063721508,15), (1063648240,15), (1063574975,15), (1063501713,15), (1063428455,15), (1063355200,15), (1063281948,15), (1063208700,15), (1063135455,15), (1063062213,15), (1062988975,15), (1062915740,15), (1062842509,15),
    (1062769280,15), (1062696055,15), (1062622834,15), (1062549616,15), (1062476401,15), (1062403189,15), (1062329981,15), (1062256776,15), (1062183575,15), (1062110376,15), (1062037182,15), (1061963990,15), (1061890802,15), (1061817617,15), (1061744436,15), (1061671257,15),
    (1061598083,15), (1061524911,15), (1061451743,15), (1061378578,15), (1061305417,15), (1061232259,15), (1061159104,15), (1061085952,15), (1061012804,15), (1060939659,15), (1060866518,15), (1060793380,15), (1060720245,15), (1060647114,15), (1060573985,15), (1060500861,15),
    (1060427739,15), (1060354621,15), (1060281506,15), (1060208395,15), (1060135287,15), (1060062182,15), (1059989080,15), (1059915982,15), (1059842887,15), (1059769796,15), (1059696708,15), (1059623623,15), (1059550542,15), (1059477463,15), (1059404389,15), (1059331317,15),
    (1059258249,15), (1059185184,15), (1059112123,15), (1059039065,15), (1058966010,15), (1058892958,15), (1058819910,15), (1058746865,15), (1058673824,15), (1058600785,15), (1058527751,15), (1058454719,15), (1058381691,15), (1058308666,15), (1058235644,15), (1058162626,15),
    (1058089611,15), (1058016600,15), (1057943591,15), (1057870587,15), (1057797585,15), (1057724587,15), (1057651592,15), (1057578600,15), (1057505612,15), (1057432627,15), (1057359645,15), (1057286667,15), (1057213692,15), (1057140720,15), (1057067752,15), (1056994787,15),
    (1056921825,15), (1056848867,15), (1056775912,15), (1056702960,15), (1056630011,15), (1056557066,15), (1056484125,15), (1056411186,15), (1056338251,15), (1056265319,15), (1056192391,15), (1056119465,15), (1056046544,15), (1055973625,15), (1055900710,15), (1055827798,15),
    (1055754889,15), (1055681984,15), (1055609082,15), (1055536184,15), (1055463288,15), (1055390396,15), (1055317508,15), (1055244622,15), (1055171740,15), (1055098861,15), (1055025986,15), (1054953114,15), (1054880245,15), (1054807380,15), (1054734518,15), (1054661659,15),
    (1054588803,15), (1054515951,15), (1054443102,15), (1054370257,15), (1054297414,15), (1054224575,15), (1054151740,15), (1054078908,15), (1054006079,15), (1053933253,15), (1053860430,15), (1053787611,15), (1053714796,15), (1053641983,15), (1053569174,15), (1053496368,15),
    (1053423566,15), (1053350767,15), (1053277971,15), (1053205178,15), (1053132389,15), (1053059603,15), (1052986820,15), (1052914041,15), (1052841265,15), (1052768492,15), (1052695723,15), (1052622957,15), (1052550194,15), (1052477435,15), (1052404679,15), (1052331926,15),
    (1052259176,15), (1052186430,15), (1052113687,15), (1052040947,15), (1051968211,15), (1051895478,15), (1051822748,15), (1051750022,15), (1051677299,15), (1051604579,15), (1051531863,15), (1051459150,15), (1051386440,15), (1051313733,15), (1051241030,15), (1051168330,15),
    (1051095633,15), (1051022940,15), (1050950250,15), (1050877563,15), (1050804880,15), (1050732200,15), (1050659523,15), (1050586849,15), (1050514179,15), (1050441512,15), (1050368849,15), (1050296188,15), (1050223531,15), (1050150878,15), (1050078227,15), (1050005580,15),
    (1049932936,15), (1049860296,15), (1049787659,15), (1049715025,15), (1049642394,15), (1049569767,15), (1049497143,15), (1049424522,15), (1049351905,15), (1049279291,15), (1049206680,15), (1049134072,15), (1049061468,15), (1048988867,15), (1048916270,15), (1048843675,15),
    (1048771084,15), (1048698497,15), (1048625912,15), (1048553331,15), (1048480753,15), (1048408179,15), (1048335608,15), (1048263040,15), (1048190475,15), (1048117914,15), (1048045356,15), (1047972801,15), (1047900249,15), (1047827701,15), (1047755156,15), (1047682615,15),
    (1047610077,15), (1047537542,15), (1047465010,15), (1047392481,15), (1047319956,15), (1047247434,15), (1047174916,15), (1047102401,15), (1047029889,15), (1046957380,15), (1046884875,15), (1046812373,15), (1046739874,15), (1046667378,15), (1046594886,15), (1046522397,15),
    (1046449912,15), (1046377429,15), (1046304950,15), (1046232475,15), (1046160002,15), (1046087533,15), (1046015067,15), (1045942605,15), (1045870145,15), (1045797689,15), (1045725237,15), (1045652787,15), (1045580341,15), (1045507898,15), (1045435459,15), (1045363022,15),
    (1045290589,15), (1045218160,15), (1045145733,15), (1045073310,15), (1045000890,15), (1044928474,15), (1044856060,15), (1044783650,15), (1044711244,15), (1044638840,15), (1044566440,15), (1044494043,15), (1044421650,15), (1044349259,15), (1044276872,15), (1044204488,15),
    (1044132108,15), (1044059731,15), (1043987357,15), (1043914986,15), (1043842619,15), (1043770255,15), (1043697894,15), (1043625537,15), (1043553183,15), (1043480832,15), (1043408484,15), (1043336140,15), (1043263799,15), (1043191461,15), (1043119126,15), (1043046795,15),
    (1042974467,15), (1042902143,15), (1042829821,15), (1042757503,15), (1042685188,15), (1042612877,15), (1042540568,15), (1042468263,15), (1042395962,15), (1042323663,15), (1042251368,15), (1042179076,15), (1042106788,15), (1042034502,15), (1041962220,15), (1041889941,15),
    (1041817666,15), (1041745394,15), (1041673125,15), (1041600859,15), (1041528597,15), (1041456337,15), (1041384082,15), (1041311829,15), (1041239580,15), (1041167334,15), (1041095091,15), (1041022851,15), (1040950615,15), (1040878382,15), (1040806153,15), (1040733926,15),
    (1040661703,15), (1040589483,15), (1040517267,15), (1040445053,15), (1040372843,15), (1040300637,15), (1040228433,15), (1040156233,15), (1040084036,15), (1040011842,15), (1039939652,15), (1039867465,15), (1039795281,15), (1039723100,15), (1039650923,15), (1039578749,15),
    (1039506578,15), (1039434410,15), (1039362246,15), (1039290085,15), (1039217927,15), (1039145773,15), (1039073622,15), (1039001474,15), (1038929329,15), (1038857188,15), (1038785050,15), (1038712915,15), (1038640783,15), (1038568655,15), (1038496530,15), (1038424408,15),
    (1038352290,15), (1038280174,15), (1038208062,15), (1038135954,15), (1038063848,15), (1037991746,15), (1037919647,15), (1037847551,15), (1037775459,15), (1037703370,15), (1037631284,15), (1037559201,15), (1037487122,15), (1037415046,15), (1037342973,15), (1037270903,15),
    (1037198837,15), (1037126774,15), (1037054714,15), (1036982658,15), (1036910604,15), (1036838554,15), (1036766508,15), (1036694464,15), (1036622424,15), (1036550387,15), (1036478353,15), (1036406323,15), (1036334296,15), (1036262272,15), (1036190251,15), (1036118234,15),
    (1036046219,15), (1035974208,15), (1035902201,15), (1035830196,15), (1035758195,15), (1035686197,15), (1035614203,15), (1035542211,15), (1035470223,15), (1035398239,15), (1035326257,15), (1035254279,15), (1035182304,15), (1035110332,15), (1035038363,15), (1034966398,15),
    (1034894436,15), (1034822477,15), (1034750521,15), (1034678569,15), (1034606620,15), (1034534674,15), (1034462732,15), (1034390792,15), (1034318856,15), (1034246924,15), (1034174994,15), (1034103068,15), (1034031145,15), (1033959225,15), (1033887309,15), (1033815395,15),
    (1033743485,15), (1033671579,15), (1033599675,15), (1033527775,15), (1033455878,15), (1033383984,15), (1033312093,15), (1033240206,15), (1033168322,15), (1033096441,15), (1033024564,15), (1032952690,15), (1032880819,15), (1032808951,15), (1032737086,15), (1032665225,15),
    (1032593367,15), (1032521512,15), (1032449661,15), (1032377812,15), (1032305967,15), (1032234126,15), (1032162287,15), (1032090452,15), (1032018620,15), (1031946791,15), (1031874965,15), (1031803143,15), (1031731324,15), (1031659508,15), (1031587696,15), (1031515886,15),
    (1031444080,15), (1031372277,15), (1031300478,15), (1031228681,15), (1031156888,15), (1031085098,15), (1031013312,15), (1030941528,15), (1030869748,15), (1030797971,15), (1030726197,15), (1030654427,15), (1030582660,15), (1030510896,15), (1030439135,15), (1030367378,15),
    (1030295624,15), (1030223873,15), (1030152125,15), (1030080380,15), (1030008639,15), (1029936901,15), (1029865166,15), (1029793435,15), (1029721706,15), (1029649981,15), (1029578259,15), (1029506541,15), (1029434826,15), (1029363113,15), (1029291405,15), (1029219699,15),
    (1029147996,15), (1029076297,15), (1029004601,15), (1028932909,15), (1028861219,15), (1028789533,15), (1028717850,15), (1028646170,15), (1028574494,15), (1028502820,15), (1028431150,15), (1028359484,15), (1028287820,15), (1028216160,15), (1028144503,15), (1028072849,15),
    (1028001198,15), (1027929551,15), (1027857906,15), (1027786266,15), (1027714628,15), (1027642993,15), (1027571362,15), (1027499734,15), (1027428109,15), (1027356488,15), (1027284869,15), (1027213254,15), (1027141642,15), (1027070034,15), (1026998428,15), (1026926826,15),
    (1026855227,15), (1026783632,15), (1026712039,15), (1026640450,15), (1026568864,15), (1026497281,15), (1026425702,15), (1026354125,15), (1026282552,15), (1026210982,15), (1026139416,15), (1026067852,15), (1025996292,15), (1025924735,15), (1025853181,15), (1025781631,15),
    (1025710083,15), (1025638539,15), (1025566999,15), (1025495461,15), (1025423927,15), (1025352395,15), (1025280867,15), (1025209343,15), (1025137821,15), (1025066303,15), (1024994788,15), (1024923276,15), (1024851768,15), (1024780262,15), (1024708760,15), (1024637261,15),
    (1024565765,15), (1024494273,15), (1024422784,15), (1024351298,15), (1024279815,15), (1024208335,15), (1024136859,15), (1024065386,15), (1023993916,15), (1023922449,15), (1023850986,15), (1023779526,15), (1023708068,15), (1023636615,15), (1023565164,15), (1023493717,15),
    (1023422273,15), (1023350832,15), (1023279394,15), (1023207959,15), (1023136528,15), (1023065100,15), (1022993675,15), (1022922254,15), (1022850835,15), (1022779420,15), (1022708008,15), (1022636599,15), (1022565194,15), (1022493791,15), (1022422392,15), (1022350996,15),
    (1022279604,15), (1022208214,15), (1022136828,15), (1022065445,15), (1021994065,15), (1021922689,15), (1021851315,15), (1021779945,15), (1021708578,15), (1021637214,15), (1021565854,15), (1021494497,15), (1021423142,15), (1021351792,15), (1021280444,15), (1021209099,15),
    (1021137758,15), (1021066420,15), (1020995085,15), (1020923754,15), (1020852425,15), (1020781100,15), (1020709778,15), (1020638459,15), (1020567144,15), (1020495832,15), (1020424522,15), (1020353216,15), (1020281914,15), (1020210614,15), (1020139318,15), (1020068025,15),
    (1019996735,15), (1019925448,15), (1019854165,15), (1019782885,15), (1019711608,15), (1019640334,15), (1019569063,15), (1019497796,15), (1019426532,15), (1019355271,15), (1019284013,15), (1019212758,15), (1019141507,15), (1019070259,15), (1018999014,15), (1018927772,15),
    (1018856533,15), (1018785298,15), (1018714066,15), (1018642837,15), (1018571611,15), (1018500389,15), (1018429169,15), (1018357953,15), (1018286740,15), (1018215530,15), (1018144324,15), (1018073121,15), (1018001921,15), (1017930724,15), (1017859530,15), (1017788339,15),
    (1017717152,15), (1017645968,15), (1017574787,15), (1017503609,15), (1017432435,15), (1017361264,15), (1017290096,15), (1017218931,15), (1017147769,15), (1017076611,15), (1017005455,15), (1016934303,15), (1016863154,15), (1016792009,15), (1016720866,15), (1016649727,15),
    (1016578591,15), (1016507458,15), (1016436328,15), (1016365202,15), (1016294078,15), (1016222958,15), (1016151841,15), (1016080728,15), (1016009617,15), (1015938510,15), (1015867406,15), (1015796305,15), (1015725207,15), (1015654112,15), (1015583021,15), (1015511933,15),
    (1015440848,15), (1015369766,15), (1015298688,15), (1015227612,15), (1015156540,15), (1015085471,15), (1015014406,15), (1014943343,15), (1014872284,15), (1014801227,15), (1014730174,15), (1014659125,15), (1014588078,15), (1014517035,15), (1014445994,15), (1014374957,15),
    (1014303923,15), (1014232893,15), (1014161865,15), (1014090841,15), (1014019820,15), (1013948802,15), (1013877787,15), (1013806776,15), (1013735767,15), (1013664762,15), (1013593760,15), (1013522762,15), (1013451766,15), (1013380774,15), (1013309785,15), (1013238799,15),
    (1013167816,15), (1013096836,15), (1013025860,15), (1012954886,15), (1012883916,15), (1012812950,15), (1012741986,15), (1012671025,15), (1012600068,15), (1012529114,15), (1012458163,15), (1012387215,15), (1012316271,15), (1012245329,15), (1012174391,15), (1012103456,15),
    (1012032524,15), (1011961596,15), (1011890670,15), (1011819748,15), (1011748829,15), (1011677913,15), (1011607000,15), (1011536091,15), (1011465184,15), (1011394281,15), (1011323381,15), (1011252484,15), (1011181591,15), (1011110700,15), (1011039813,15), (1010968929,15),
    (1010898048,15), (1010827170,15), (1010756296,15), (1010685424,15), (1010614556,15), (1010543691,15), (1010472830,15), (1010401971,15), (1010331115,15), (1010260263,15), (1010189414,15), (1010118568,15), (1010047725,15), (1009976886,15), (1009906050,15), (1009835216,15),
    (1009764386,15), (1009693559,15), (1009622736,15), (1009551915,15), (1009481098,15), (1009410284,15), (1009339473,15), (1009268665,15), (1009197861,15), (1009127059,15), (1009056261,15), (1008985466,15), (1008914674,15), (1008843885,15), (1008773100,15), (1008702317,15),
    (1008631538,15), (1008560762,15), (1008489989,15), (1008419220,15), (1008348453,15), (1008277690,15), (1008206930,15), (1008136173,15), (1008065419,15), (1007994668,15), (1007923921,15), (1007853176,15), (1007782435,15), (1007711697,15), (1007640963,15), (1007570231,15),
    (1007499503,15), (1007428777,15), (1007358055,15), (1007287336,15), (1007216620,15), (1007145908,15), (1007075198,15), (1007004492,15), (1006933789,15), (1006863089,15), (1006792393,15), (1006721699,15), (1006651009,15), (1006580321,15), (1006509637,15), (1006438956,15),
    (1006368279,15), (1006297604,15), (1006226933,15), (1006156265,15), (1006085600,15), (1006014938,15), (1005944279,15), (1005873623,15), (1005802971,15), (1005732322,15), (1005661676,15), (1005591033,15), (1005520393,15), (1005449757,15), (1005379123,15), (1005308493,15),
    (1005237866,15), (1005167242,15), (1005096621,15), (1005026004,15), (1004955389,15), (1004884778,15), (1004814170,15), (1004743565,15), (1004672963,15), (1004602365,15), (1004531769,15), (1004461177,15), (1004390588,15), (1004320002,15), (1004249419,15), (1004178839,15),
    (1004108263,15), (1004037690,15), (1003967120,15), (1003896553,15), (1003825989,15), (1003755428,15), (1003684871,15), (1003614316,15), (1003543765,15), (1003473217,15), (1003402672,15), (1003332130,15), (1003261592,15), (1003191057,15), (1003120524,15), (1003049995,15),
    (1002979469,15), (1002908947,15), (1002838427,15), (1002767911,15), (1002697397,15), (1002626887,15), (1002556380,15), (1002485876,15), (1002415376,15), (1002344878,15), (1002274384,15), (1002203893,15), (1002133405,15), (1002062920,15), (1001992438,15), (1001921959,15),
    (1001851484,15), (1001781012,15), (1001710543,15), (1001640077,15), (1001569614,15), (1001499154,15), (1001428698,15), (1001358244,15), (1001287794,15), (1001217347,15), (1001146903,15), (1001076462,15), (1001006025,15), (1000935590,15), (1000865159,15), (1000794731,15),
    (1000724306,15), (1000653884,15), (1000583466,15), (1000513050,15), (1000442638,15), (1000372228,15), (1000301822,15), (1000231419,15), (1000161020,15), (1000090623,15), (1000020229,15), (999949839,15), (999879452,15), (999809068,15), (999738687,15), (999668309,15),
    (999597935,15), (999527563,15), (999457195,15), (999386830,15), (999316468,15), (999246109,15), (999175753,15), (999105401,15), (999035051,15), (998964705,15), (998894362,15), (998824022,15), (998753685,15), (998683351,15), (998613021,15), (998542693,15),
    (998472369,15), (998402048,15), (998331730,15), (998261415,15), (998191103,15), (998120795,15), (998050489,15), (997980187,15), (997909888,15), (997839592,15), (997769299,15), (997699010,15), (997628723,15), (997558440,15), (997488159,15), (997417882,15),
    (997347608,15), (997277337,15), (997207070,15), (997136805,15), (997066544,15), (996996285,15), (996926030,15), (996855778,15), (996785529,15), (996715284,15), (996645041,15), (996574802,15), (996504565,15), (996434332,15), (996364102,15), (996293875,15),
    (996223651,15), (996153431,15), (996083213,15), (996012999,15), (995942788,15), (995872580,15), (995802375,15), (995732173,15), (995661974,15), (995591779,15), (995521586,15), (995451397,15), (995381211,15), (995311028,15), (995240848,15), (995170671,15),
    (995100498,15), (995030327,15), (994960160,15), (994889996,15), (994819835,15), (994749677,15), (994679522,15), (994609370,15), (994539222,15), (994469076,15), (994398934,15), (994328795,15), (994258659,15), (994188526,15), (994118396,15), (994048270,15),
    (993978146,15), (993908026,15), (993837909,15), (993767794,15), (993697684,15), (993627576,15), (993557471,15), (993487369,15), (993417271,15), (993347176,15), (993277083,15), (993206994,15), (993136908,15), (993066826,15), (992996746,15), (992926669,15),
    (992856596,15), (992786526,15), (992716459,15), (992646395,15), (992576334,15), (992506276,15), (992436221,15), (992366170,15), (992296121,15), (992226076,15), (992156034,15), (992085995,15), (992015959,15), (991945926,15), (991875896,15), (991805870,15),
    (991735847,15), (991665826,15), (991595809,15), (991525795,15), (991455784,15), (991385776,15), (991315772,15), (991245770,15), (991175772,15), (991105776,15), (991035784,15), (990965795,15), (990895809,15), (990825826,15), (990755847,15), (990685870,15),
    (990615897,15), (990545926,15), (990475959,15), (990405995,15), (990336034,15), (990266076,15), (990196121,15), (990126170,15), (990056221,15), (989986276,15), (989916334,15), (989846395,15), (989776459,15), (989706526,15), (989636596,15), (989566669,15),
    (989496746,15), (989426825,15), (989356908,15), (989286994,15), (989217083,15), (989147175,15), (989077270,15), (989007368,15), (988937469,15), (988867574,15), (988797681,15), (988727792,15), (988657906,15), (988588023,15), (988518143,15), (988448266,15),
    (988378393,15), (988308522,15), (988238654,15), (988168790,15), (988098929,15), (988029071,15), (987959216,15), (987889364,15), (987819515,15), (987749669,15), (987679827,15), (987609987,15), (987540151,15), (987470318,15), (987400487,15), (987330660,15),
    (987260837,15), (987191016,15), (987121198,15), (987051383,15), (986981572,15), (986911764,15), (986841958,15), (986772156,15), (986702357,15), (986632561,15), (986562768,15), (986492979,15), (986423192,15), (986353409,15), (986283628,15), (986213851,15),
    (986144077,15), (986074306,15), (986004538,15), (985934773,15), (985865011,15), (985795253,15), (985725497,15), (985655745,15), (985585995,15), (985516249,15), (985446506,15), (985376766,15), (985307029,15), (985237295,15), (985167565,15), (985097837,15),
    (985028113,15), (984958391,15), (984888673,15), (984818958,15), (984749246,15), (984679537,15), (984609831,15), (984540128,15), (984470428,15), (984400732,15), (984331038,15), (984261348,15), (984191661,15), (984121977,15), (984052296,15), (983982618,15),
    (983912943,15), (983843271,15), (983773602,15), (983703937,15), (983634274,15), (983564615,15), (983494959,15), (983425306,15), (983355656,15), (983286009,15), (983216365,15), (983146724,15), (983077086,15), (983007452,15), (982937820,15), (982868192,15),
    (982798567,15), (982728945,15), (982659326,15), (982589710,15), (982520097,15), (982450487,15), (982380880,15), (982311277,15), (982241676,15), (982172079,15), (982102484,15), (982032893,15), (981963305,15), (981893720,15), (981824138,15), (981754559,15),
    (981684984,15), (981615411,15), (981545841,15), (981476275,15), (981406712,15), (981337151,15), (981267594,15), (981198040,15), (981128489,15), (981058941,15), (980989396,15), (980919855,15), (980850316,15), (980780781,15), (980711248,15), (980641719,15),
    (980572193,15), (980502669,15), (980433149,15), (980363632,15), (980294118,15), (980224608,15), (980155100,15), (980085595,15), (980016094,15), (979946595,15), (979877100,15), (979807608,15), (979738118,15), (979668632,15), (979599149,15), (979529669,15),
    (979460193,15), (979390719,15), (979321248,15), (979251781,15), (979182316,15), (979112855,15), (979043396,15), (978973941,15), (978904489,15), (978835040,15), (978765594,15), (978696151,15), (978626711,15), (978557275,15), (978487841,15), (978418410,15),
    (978348983,15), (978279559,15), (978210137,15), (978140719,15), (978071304,15), (978001892,15), (977932483,15), (977863077,15), (977793674,15), (977724275,15), (977654878,15), (977585484,15), (977516094,15), (977446707,15), (977377322,15), (977307941,15),
    (977238563,15), (977169188,15), (977099816,15), (977030447,15), (976961081,15), (976891718,15), (976822359,15), (976753002,15), (976683649,15), (976614298,15), (976544951,15), (976475607,15), (976406265,15), (976336927,15), (976267592,15), (976198260,15),
    (976128931,15), (976059606,15), (975990283,15), (975920963,15), (975851647,15), (975782333,15), (975713023,15), (975643715,15), (975574411,15), (975505110,15), (975435812,15), (975366517,15), (975297225,15), (975227936,15), (975158650,15), (975089367,15),
    (975020088,15), (974950811,15), (974881538,15), (974812267,15), (974743000,15), (974673736,15), (974604474,15), (974535216,15), (974465961,15), (974396709,15), (974327460,15), (974258214,15), (974188972,15), (974119732,15), (974050495,15), (973981262,15),
    (973912031,15), (973842804,15), (973773579,15), (973704358,15), (973635140,15), (973565925,15), (973496713,15), (973427504,15), (973358298,15), (973289095,15), (973219895,15), (973150698,15), (973081505,15), (973012314,15), (972943126,15), (972873942,15),
    (972804761,15), (972735582,15), (972666407,15), (972597235,15), (972528066,15), (972458900,15), (972389737,15), (972320577,15), (972251420,15), (972182266,15), (972113115,15), (972043968,15), (971974823,15), (971905681,15), (971836543,15), (971767408,15),
    (971698275,15), (971629146,15), (971560020,15), (971490897,15), (971421777,15), (971352660,15), (971283546,15), (971214435,15), (971145327,15), (971076222,15), (971007120,15), (970938022,15), (970868926,15), (970799834,15), (970730744,15), (970661658,15),
    (970592574,15), (970523494,15), (970454417,15), (970385343,15), (970316272,15), (970247204,15), (970178139,15), (970109077,15), (970040018,15), (969970962,15), (969901909,15), (969832860,15), (969763813,15), (969694770,15), (969625729,15), (969556692,15),
    (969487657,15), (969418626,15), (969349598,15), (969280573,15), (969211550,15), (969142531,15), (969073515,15), (969004502,15), (968935492,15), (968866485,15), (968797482,15), (968728481,15), (968659483,15), (968590489,15), (968521497,15), (968452508,15),
    (968383523,15), (968314541,15), (968245561,15), (968176585,15), (968107612,15), (968038641,15), (967969674,15), (967900710,15), (967831749,15), (967762791,15), (967693836,15), (967624884,15), (967555935,15), (967486990,15), (967418047,15), (967349107,15),
    (967280171,15), (967211237,15), (967142306,15), (967073379,15), (967004455,15), (966935533,15), (966866615,15), (966797700,15), (966728787,15), (966659878,15), (966590972,15), (966522069,15), (966453169,15), (966384272,15), (966315378,15), (966246487,15),
    (966177599,15), (966108715,15), (966039833,15), (965970954,15), (965902078,15), (965833206,15), (965764336,15), (965695470,15), (965626606,15), (965557746,15), (965488889,15), (965420034,15), (965351183,15), (965282335,15), (965213490,15), (965144647,15),
    (965075808,15), (965006972,15), (964938139,15), (964869309,15), (964800482,15), (964731659,15), (964662838,15), (964594020,15), (964525205,15), (964456394,15), (964387585,15), (964318779,15), (964249977,15), (964181177,15), (964112381,15), (964043587,15),
    (963974797,15), (963906010,15), (963837225,15), (963768444,15), (963699666,15), (963630890,15), (963562118,15), (963493349,15), (963424583,15), (963355820,15), (963287060,15), (963218303,15), (963149549,15), (963080798,15), (963012051,15), (962943306,15),
    (962874564,15), (962805825,15), (962737090,15), (962668357,15), (962599627,15), (962530901,15), (962462177,15), (962393457,15), (962324739,15), (962256025,15), (962187314,15), (962118605,15), (962049900,15), (961981198,15), (961912498,15), (961843802,15),
    (961775109,15), (961706419,15), (961637732,15), (961569048,15), (961500367,15), (961431689,15), (961363014,15), (961294342,15), (961225673,15), (961157007,15), (961088344,15), (961019684,15), (960951028,15), (960882374,15), (960813723,15), (960745076,15),
    (960676431,15), (960607789,15), (960539151,15), (960470515,15), (960401883,15), (960333253,15), (960264627,15), (960196004,15), (960127383,15), (960058766,15), (959990151,15), (959921540,15), (959852932,15), (959784327,15), (959715724,15), (959647125,15),
    (959578529,15), (959509936,15), (959441346,15), (959372759,15), (959304175,15), (959235594,15), (959167016,15), (959098441,15), (959029869,15), (958961300,15), (958892734,15), (958824171,15), (958755612,15), (958687055,15), (958618501,15), (958549950,15),
    (958481403,15), (958412858,15), (958344316,15), (958275778,15), (958207242,15), (958138710,15), (958070180,15), (958001653,15), (957933130,15), (957864609,15), (957796092,15), (957727578,15), (957659066,15), (957590558,15), (957522052,15), (957453550,15),
    (957385051,15), (957316554,15), (957248061,15), (957179571,15), (957111084,15), (957042600,15), (956974118,15), (956905640,15), (956837165,15), (956768693,15), (956700224,15), (956631758,15), (956563295,15), (956494835,15), (956426378,15), (956357924,15),
    (956289473,15), (956221025,15), (956152580,15), (956084138,15), (956015699,15), (955947263,15), (955878830,15), (955810400,15), (955741973,15), (955673549,15), (955605129,15), (955536711,15), (955468296,15), (955399884,15), (955331476,15), (955263070,15),
    (955194667,15), (955126268,15), (955057871,15), (954989477,15), (954921087,15), (954852699,15), (954784314,15), (954715933,15), (954647554,15), (954579179,15), (954510806,15), (954442436,15), (954374070,15), (954305706,15), (954237346,15), (954168988,15),
    (954100634,15), (954032282,15), (953963934,15), (953895589,15), (953827246,15), (953758907,15), (953690570,15), (953622237,15), (953553907,15), (953485579,15), (953417255,15), (953348934,15), (953280615,15), (953212300,15), (953143988,15), (953075678,15),
    (953007372,15), (952939069,15), (952870768,15), (952802471,15), (952734177,15), (952665886,15), (952597597,15), (952529312,15), (952461030,15), (952392751,15), (952324475,15), (952256201,15), (952187931,15), (952119664,15), (952051400,15), (951983139,15),
    (951914880,15), (951846625,15), (951778373,15), (951710124,15), (951641878,15), (951573635,15), (951505395,15), (951437157,15), (951368923,15), (951300692,15), (951232464,15), (951164239,15), (951096017,15), (951027798,15), (950959582,15), (950891369,15),
    (950823158,15), (950754951,15), (950686747,15), (950618546,15), (950550348,15), (950482153,15), (950413961,15), (950345772,15), (950277586,15), (950209403,15), (950141223,15), (950073046,15), (950004872,15), (949936701,15), (949868533,15), (949800367,15),
    (949732205,15), (949664046,15), (949595890,15), (949527737,15), (949459587,15), (949391440,15), (949323296,15), (949255155,15), (949187017,15), (949118882,15), (949050750,15), (948982621,15), (948914495,15), (948846372,15), (948778251,15), (948710134,15),
    (948642020,15), (948573909,15), (948505801,15), (948437696,15), (948369594,15), (948301495,15), (948233399,15), (948165306,15), (948097215,15), (948029128,15), (947961044,15), (947892963,15), (947824885,15), (947756810,15), (947688738,15), (947620669,15),
    (947552602,15), (947484539,15), (947416479,15), (947348422,15), (947280368,15), (947212317,15), (947144268,15), (947076223,15), (947008181,15), (946940142,15), (946872105,15), (946804072,15), (946736042,15), (946668015,15), (946599990,15), (946531969,15),
    (946463951,15), (946395936,15), (946327923,15), (946259914,15), (946191908,15), (946123904,15), (946055904,15), (945987907,15), (945919912,15), (945851921,15), (945783933,15), (945715947,15), (945647965,15), (945579985,15), (945512009,15), (945444035,15),
    (945376065,15), (945308097,15), (945240133,15), (945172172,15), (945104213,15), (945036257,15), (944968305,15), (944900355,15), (944832409,15), (944764465,15), (944696525,15), (944628587,15), (944560652,15), (944492721,15), (944424792,15), (944356866,15),
    (944288944,15), (944221024,15), (944153107,15), (944085194,15), (944017283,15), (943949375,15), (943881470,15), (943813569,15), (943745670,15), (943677774,15), (943609881,15), (943541991,15), (943474104,15), (943406220,15), (943338339,15), (943270462,15),
    (943202587,15), (943134715,15), (943066846,15), (942998980,15), (942931117,15), (942863257,15), (942795399,15), (942727545,15), (942659694,15), (942591846,15), (942524001,15), (942456159,15), (942388320,15), (942320483,15), (942252650,15), (942184820,15),
    (942116993,15), (942049168,15), (941981347,15), (941913529,15), (941845713,15), (941777901,15), (941710091,15), (941642285,15), (941574481,15), (941506681,15), (941438883,15), (941371089,15), (941303297,15), (941235509,15), (941167723,15), (941099941,15),
    (941032161,15), (940964384,15), (940896610,15), (940828840,15), (940761072,15), (940693307,15), (940625545,15), (940557787,15), (940490031,15), (940422278,15), (940354528,15), (940286781,15), (940219037,15), (940151296,15), (940083558,15), (940015823,15),
    (939948091,15), (939880362,15), (939812635,15), (939744912,15), (939677192,15), (939609475,15), (939541761,15), (939474049,15), (939406341,15), (939338636,15), (939270933,15), (939203234,15), (939135537,15), (939067844,15), (939000153,15), (938932466,15),
    (938864781,15), (938797100,15), (938729421,15), (938661745,15), (938594073,15), (938526403,15), (938458736,15), (938391073,15), (938323412,15), (938255754,15), (938188099,15), (938120447,15), (938052798,15), (937985152,15), (937917509,15), (937849869,15),
    (937782232,15), (937714598,15), (937646967,15), (937579338,15), (937511713,15), (937444091,15), (937376472,15), (937308855,15), (937241242,15), (937173632,15), (937106024,15), (937038420,15), (936970818,15), (936903220,15), (936835624,15), (936768031,15),
    (936700442,15), (936632855,15), (936565271,15), (936497690,15), (936430113,15), (936362538,15), (936294966,15), (936227397,15), (936159831,15), (936092268,15), (936024708,15), (935957151,15), (935889597,15), (935822045,15), (935754497,15), (935686952,15),
    (935619410,15), (935551870,15), (935484334,15), (935416801,15), (935349270,15), (935281743,15), (935214218,15), (935146697,15), (935079178,15), (935011662,15), (934944149,15), (934876640,15), (934809133,15), (934741629,15), (934674128,15), (934606630,15),
    (934539135,15), (934471643,15), (934404154,15), (934336668,15), (934269185,15), (934201705,15), (934134228,15), (934066753,15), (933999282,15), (933931814,15), (933864348,15), (933796886,15), (933729426,15), (933661970,15), (933594516,15), (933527065,15),
    (933459618,15), (933392173,15), (933324731,15), (933257292,15), (933189856,15), (933122424,15), (933054994,15), (932987567,15), (932920142,15), (932852721,15), (932785303,15), (932717888,15), (932650476,15), (932583066,15), (932515660,15), (932448257,15),
    (932380856,15), (932313459,15), (932246064,15), (932178672,15), (932111284,15), (932043898,15), (931976515,15), (931909135,15), (931841758,15), (931774385,15), (931707014,15), (931639646,15), (931572280,15), (931504918,15), (931437559,15), (931370203,15),
    (931302850,15), (931235499,15), (931168152,15), (931100807,15), (931033466,15), (930966127,15), (930898792,15), (930831459,15), (930764129,15), (930696803,15), (930629479,15), (930562158,15), (930494840,15), (930427525,15), (930360213,15), (930292904,15),
    (930225597,15), (930158294,15), (930090994,15), (930023697,15), (929956402,15), (929889111,15), (929821822,15), (929754537,15), (929687254,15), (929619974,15), (929552698,15), (929485424,15), (929418153,15), (929350885,15), (929283620,15), (929216358,15),
    (929149099,15), (929081843,15), (929014590,15), (928947339,15), (928880092,15), (928812848,15), (928745606,15), (928678368,15), (928611132,15), (928543899,15), (928476670,15), (928409443,15), (928342219,15), (928274998,15), (928207780,15), (928140565,15),
    (928073353,15), (928006144,15), (927938938,15), (927871735,15), (927804534,15), (927737337,15), (927670143,15), (927602951,15), (927535762,15), (927468577,15), (927401394,15), (927334214,15), (927267038,15), (927199864,15), (927132693,15), (927065525,15),
    (926998360,15), (926931197,15), (926864038,15), (926796882,15), (926729729,15), (926662578,15), (926595431,15), (926528286,15), (926461144,15), (926394006,15), (926326870,15), (926259737,15), (926192607,15), (926125480,15), (926058356,15), (925991235,15),
    (925924117,15), (925857002,15), (925789890,15), (925722780,15), (925655674,15), (925588570,15), (925521470,15), (925454372,15), (925387277,15), (925320186,15), (925253097,15), (925186011,15), (925118928,15), (925051848,15), (924984771,15), (924917696,15),
    (924850625,15), (924783557,15), (924716491,15), (924649429,15), (924582369,15), (924515313,15), (924448259,15), (924381208,15), (924314160,15), (924247115,15), (924180073,15), (924113034,15), (924045998,15), (923978965,15), (923911934,15), (923844907,15),
    (923777883,15), (923710861,15), (923643842,15), (923576827,15), (923509814,15), (923442804,15), (923375797,15), (923308793,15), (923241792,15), (923174794,15), (923107799,15), (923040807,15), (922973817,15), (922906831,15), (922839847,15), (922772867,15),
    (922705889,15), (922638914,15), (922571942,15), (922504974,15), (922438008,15), (922371045,15), (922304084,15), (922237127,15), (922170173,15), (922103221,15), (922036273,15), (921969327,15), (921902385,15), (921835445,15), (921768508,15), (921701575,15),
    (921634644,15), (921567716,15), (921500790,15), (921433868,15), (921366949,15), (921300033,15), (921233119,15), (921166209,15), (921099301,15), (921032396,15), (920965495,15), (920898596,15), (920831700,15), (920764807,15), (920697917,15), (920631030,15),
    (920564145,15), (920497264,15), (920430386,15), (920363510,15), (920296638,15), (920229768,15), (920162901,15), (920096037,15), (920029176,15), (919962318,15), (919895463,15), (919828611,15), (919761762,15), (919694915,15), (919628072,15), (919561231,15),
    (919494394,15), (919427559,15), (919360727,15), (919293898,15), (919227072,15), (919160249,15), (919093429,15), (919026612,15), (918959798,15), (918892986,15), (918826178,15), (918759372,15), (918692569,15), (918625770,15), (918558973,15), (918492179,15),
    (918425388,15), (918358600,15), (918291814,15), (918225032,15), (918158253,15), (918091476,15), (918024703,15), (917957932,15), (917891164,15), (917824399,15), (917757637,15), (917690878,15), (917624122,15), (917557369,15), (917490619,15), (917423871,15),
    (917357127,15), (917290385,15), (917223647,15), (917156911,15), (917090178,15), (917023448,15), (916956721,15), (916889997,15), (916823275,15), (916756557,15), (916689842,15), (916623129,15), (916556419,15), (916489713,15), (916423009,15), (916356308,15),
    (916289610,15), (916222915,15), (916156223,15), (916089533,15), (916022847,15), (915956163,15), (915889483,15), (915822805,15), (915756130,15), (915689459,15), (915622790,15), (915556123,15), (915489460,15), (915422800,15), (915356143,15), (915289488,15),
    (915222837,15), (915156188,15), (915089542,15), (915022899,15), (914956259,15), (914889622,15), (914822988,15), (914756357,15), (914689728,15), (914623103,15), (914556480,15), (914489861,15), (914423244,15), (914356630,15), (914290019,15), (914223411,15),
    (914156806,15), (914090203,15), (914023604,15), (913957008,15), (913890414,15), (913823823,15), (913757236,15), (913690651,15), (913624069,15), (913557489,15), (913490913,15), (913424340,15), (913357770,15), (913291202,15), (913224637,15), (913158076,15),
    (913091517,15), (913024961,15), (912958408,15), (912891858,15), (912825310,15), (912758766,15), (912692225,15), (912625686,15), (912559150,15), (912492617,15), (912426088,15), (912359561,15), (912293036,15), (912226515,15), (912159997,15), (912093481,15),
    (912026969,15), (911960459,15), (911893953,15), (911827449,15), (911760948,15), (911694450,15), (911627954,15), (911561462,15), (911494973,15), (911428486,15), (911362002,15), (911295522,15), (911229044,15), (911162569,15), (911096097,15), (911029628,15),
    (910963161,15), (910896698,15), (910830237,15), (910763780,15), (910697325,15), (910630873,15), (910564424,15), (910497978,15), (910431535,15), (910365095,15), (910298657,15), (910232223,15), (910165791,15), (910099362,15), (910032936,15), (909966513,15),
    (909900093,15), (909833676,15), (909767262,15), (909700850,15), (909634442,15), (909568036,15), (909501633,15), (909435233,15), (909368836,15), (909302442,15), (909236051,15), (909169663,15), (909103277,15), (909036894,15), (908970515,15), (908904138,15),
    (908837764,15), (908771393,15), (908705025,15), (908638659,15), (908572297,15), (908505937,15), (908439581,15), (908373227,15), (908306876,15), (908240528,15), (908174183,15), (908107841,15), (908041501,15), (907975165,15), (907908831,15), (907842501,15),
    (907776173,15), (907709848,15), (907643526,15), (907577206,15), (907510890,15), (907444577,15), (907378266,15), (907311958,15), (907245653,15), (907179352,15), (907113052,15), (907046756,15), (906980463,15), (906914173,15), (906847885,15), (906781600,15),
    (906715319,15), (906649040,15), (906582764,15), (906516490,15), (906450220,15), (906383953,15), (906317688,15), (906251426,15), (906185168,15), (906118912,15), (906052659,15), (905986409,15), (905920161,15), (905853917,15), (905787675,15), (905721437,15),
    (905655201,15), (905588968,15), (905522738,15), (905456511,15), (905390286,15), (905324065,15), (905257846,15), (905191631,15), (905125418,15), (905059208,15), (904993001,15), (904926797,15), (904860595,15), (904794397,15), (904728201,15), (904662009,15),
    (904595819,15), (904529632,15), (904463448,15), (904397267,15), (904331088,15), (904264913,15), (904198740,15), (904132570,15), (904066404,15), (904000240,15), (903934078,15), (903867920,15), (903801765,15), (903735612,15), (903669463,15), (903603316,15),
    (903537172,15), (903471031,15), (903404893,15), (903338757,15), (903272625,15), (903206495,15), (903140369,15), (903074245,15), (903008124,15), (902942006,15), (902875890,15), (902809778,15), (902743668,15), (902677562,15), (902611458,15), (902545357,15),
    (902479259,15), (902413164,15), (902347071,15), (902280982,15), (902214895,15), (902148812,15), (902082731,15), (902016653,15), (901950578,15), (901884505,15), (901818436,15), (901752369,15), (901686306,15), (901620245,15), (901554187,15), (901488132,15),
    (901422079,15), (901356030,15), (901289984,15), (901223940,15), (901157899,15), (901091861,15), (901025826,15), (900959794,15), (900893764,15), (900827738,15), (900761714,15), (900695694,15), (900629676,15), (900563661,15), (900497648,15), (900431639,15),
    (900365633,15), (900299629,15), (900233628,15), (900167630,15), (900101635,15), (900035643,15), (899969654,15), (899903667,15), (899837684,15), (899771703,15), (899705725,15), (899639750,15), (899573778,15), (899507808,15), (899441842,15), (899375878,15),
    (899309918,15), (899243960,15), (899178005,15), (899112052,15), (899046103,15), (898980157,15), (898914213,15), (898848272,15), (898782334,15), (898716399,15), (898650467,15), (898584538,15), (898518611,15), (898452687,15), (898386767,15), (898320849,15),
    (898254934,15), (898189021,15), (898123112,15), (898057205,15), (897991302,15), (897925401,15), (897859503,15), (897793608,15), (897727716,15), (897661826,15), (897595940,15), (897530056,15), (897464175,15), (897398297,15), (897332422,15), (897266549,15),
    (897200680,15), (897134813,15), (897068950,15), (897003089,15), (896937231,15), (896871375,15), (896805523,15), (896739674,15), (896673827,15), (896607983,15), (896542142,15), (896476304,15), (896410469,15), (896344636,15), (896278807,15), (896212980,15),
    (896147156,15), (896081335,15), (896015517,15), (895949701,15), (895883889,15), (895818079,15), (895752272,15), (895686469,15), (895620667,15), (895554869,15), (895489074,15), (895423281,15), (895357491,15), (895291704,15), (895225920,15), (895160139,15),
    (895094361,15), (895028585,15), (894962813,15), (894897043,15), (894831276,15), (894765512,15), (894699750,15), (894633992,15), (894568236,15), (894502484,15), (894436734,15), (894370987,15), (894305242,15), (894239501,15), (894173762,15), (894108027,15),
    (894042294,15), (893976564,15), (893910837,15), (893845112,15), (893779391,15), (893713672,15), (893647956,15), (893582243,15), (893516533,15), (893450826,15), (893385121,15), (893319420,15), (893253721,15), (893188025,15), (893122332,15), (893056641,15),
    (892990954,15), (892925269,15), (892859588,15), (892793909,15), (892728233,15), (892662559,15), (892596889,15), (892531221,15), (892465557,15), (892399895,15), (892334236,15), (892268579,15), (892202926,15), (892137275,15), (892071628,15), (892005983,15),
    (891940341,15), (891874702,15), (891809065,15), (891743432,15), (891677801,15), (891612173,15), (891546548,15), (891480926,15), (891415306,15), (891349690,15), (891284076,15), (891218465,15), (891152857,15), (891087252,15), (891021650,15), (890956050,15),
    (890890453,15), (890824860,15), (890759269,15), (890693680,15), (890628095,15), (890562512,15), (890496933,15), (890431356,15), (890365782,15), (890300210,15), (890234642,15), (890169076,15), (890103514,15), (890037954,15), (889972397,15), (889906843,15),
    (889841291,15), (889775743,15), (889710197,15), (889644654,15), (889579114,15), (889513576,15), (889448042,15), (889382510,15), (889316982,15), (889251456,15), (889185933,15), (889120412,15), (889054895,15), (888989380,15), (888923868,15), (888858359,15),
    (888792853,15), (888727350,15), (888661849,15), (888596352,15), (888530857,15), (888465365,15), (888399875,15), (888334389,15), (888268905,15), (888203425,15), (888137947,15), (888072472,15), (888006999,15), (887941530,15), (887876063,15), (887810600,15),
    (887745139,15), (887679680,15), (887614225,15), (887548773,15), (887483323,15), (887417876,15), (887352432,15), (887286991,15), (887221553,15), (887156117,15), (887090684,15), (887025254,15), (886959827,15), (886894403,15), (886828981,15), (886763563,15),
    (886698147,15), (886632734,15), (886567324,15), (886501916,15), (886436512,15), (886371110,15), (886305711,15), (886240315,15), (886174922,15), (886109532,15), (886044144,15), (885978759,15), (885913377,15), (885847998,15), (885782622,15), (885717248,15),
    (885651877,15), (885586510,15), (885521144,15), (885455782,15), (885390423,15), (885325066,15), (885259712,15), (885194361,15), (885129013,15), (885063668,15), (884998325,15), (884932986,15), (884867649,15), (884802315,15), (884736983,15), (884671655,15),
    (884606329,15), (884541006,15), (884475686,15), (884410369,15), (884345055,15), (884279743,15), (884214434,15), (884149128,15), (884083825,15), (884018525,15), (883953227,15), (883887933,15), (883822641,15), (883757352,15), (883692066,15), (883626782,15),
    (883561501,15), (883496224,15), (883430949,15), (883365676,15), (883300407,15), (883235140,15), (883169877,15), (883104616,15), (883039358,15), (882974102,15), (882908850,15), (882843600,15), (882778353,15), (882713109,15), (882647868,15), (882582629,15),
    (882517394,15), (882452161,15), (882386931,15), (882321703,15), (882256479,15), (882191257,15), (882126039,15), (882060823,15), (881995609,15), (881930399,15), (881865191,15), (881799987,15), (881734785,15), (881669585,15), (881604389,15), (881539196,15),
    (881474005,15), (881408817,15), (881343632,15), (881278449,15), (881213270,15), (881148093,15), (881082919,15), (881017748,15), (880952580,15), (880887414,15), (880822252,15), (880757092,15), (880691935,15), (880626780,15), (880561629,15), (880496480,15),
    (880431334,15), (880366191,15), (880301051,15), (880235914,15), (880170779,15), (880105647,15), (880040518,15), (879975392,15), (879910268,15), (879845148,15), (879780030,15), (879714915,15), (879649802,15), (879584693,15), (879519586,15), (879454483,15),
    (879389381,15), (879324283,15), (879259188,15), (879194095,15), (879129005,15), (879063918,15), (878998834,15), (878933753,15), (878868674,15), (878803598,15), (878738525,15), (878673455,15), (878608387,15), (878543323,15), (878478261,15), (878413202,15),
    (878348145,15), (878283092,15), (878218041,15), (878152993,15), (878087948,15), (878022906,15), (877957867,15), (877892830,15), (877827796,15), (877762765,15), (877697737,15), (877632711,15), (877567688,15), (877502669,15), (877437651,15), (877372637,15),
    (877307626,15), (877242617,15), (877177611,15), (877112608,15), (877047607,15), (876982610,15), (876917615,15), (876852623,15), (876787634,15), (876722648,15), (876657664,15), (876592683,15), (876527705,15), (876462730,15), (876397758,15), (876332788,15),
    (876267821,15), (876202857,15), (876137896,15), (876072937,15), (876007982,15), (875943029,15), (875878079,15), (875813131,15), (875748187,15), (875683245,15), (875618306,15), (875553370,15), (875488437,15), (875423506,15), (875358578,15), (875293653,15),
    (875228731,15), (875163812,15), (875098895,15), (875033981,15), (874969070,15), (874904162,15), (874839257,15), (874774354,15), (874709454,15), (874644557,15), (874579663,15), (874514771,15), (874449882,15), (874384996,15), (874320113,15), (874255233,15),
    (874190355,15), (874125481,15), (874060608,15), (873995739,15), (873930873,15), (873866009,15), (873801148,15), (873736290,15), (873671435,15), (873606582,15), (873541733,15), (873476886,15), (873412041,15), (873347200,15), (873282361,15), (873217526,15),
    (873152693,15), (873087862,15), (873023035,15), (872958210,15), (872893388,15), (872828569,15), (872763753,15), (872698939,15), (872634128,15), (872569320,15), (872504515,15), (872439713,15), (872374913,15), (872310116,15), (872245322,15), (872180531,15),
    (872115742,15), (872050956,15), (871986173,15), (871921393,15), (871856616,15), (871791841,15), (871727069,15), (871662300,15), (871597534,15), (871532770,15), (871468010,15), (871403252,15), (871338497,15), (871273744,15), (871208995,15), (871144248,15),
    (871079504,15), (871014762,15), (870950024,15), (870885288,15), (870820555,15), (870755825,15), (870691097,15), (870626373,15), (870561651,15), (870496932,15), (870432216,15), (870367502,15), (870302791,15), (870238083,15), (870173378,15), (870108676,15),
    (870043976,15), (869979279,15), (869914585,15), (869849894,15), (869785205,15), (869720519,15), (869655836,15), (869591156,15), (869526478,15), (869461804,15), (869397132,15), (869332463,15), (869267796,15), (869203133,15), (869138472,15), (869073814,15),
    (869009158,15), (868944506,15), (868879856,15), (868815209,15), (868750565,15), (868685924,15), (868621285,15), (868556649,15), (868492016,15), (868427386,15), (868362758,15), (868298133,15), (868233511,15), (868168892,15), (868104275,15), (868039662,15),
    (867975051,15), (867910442,15), (867845837,15), (867781234,15), (867716634,15), (867652037,15), (867587443,15), (867522851,15), (867458262,15), (867393676,15), (867329093,15), (867264513,15), (867199935,15), (867135360,15), (867070788,15), (867006218,15),
    (866941651,15), (866877087,15), (866812526,15), (866747968,15), (866683412,15), (866618859,15), (866554309,15), (866489762,15), (866425217,15), (866360676,15), (866296137,15), (866231600,15), (866167067,15), (866102536,15), (866038008,15), (865973483,15),
    (865908960,15), (865844441,15), (865779924,15), (865715410,15), (865650898,15), (865586389,15), (865521884,15), (865457380,15), (865392880,15), (865328382,15), (865263888,15), (865199396,15), (865134906,15), (865070420,15), (865005936,15), (864941455,15),
    (864876977,15), (864812501,15), (864748028,15), (864683558,15), (864619091,15), (864554627,15), (864490165,15), (864425706,15), (864361250,15), (864296796,15), (864232346,15), (864167898,15), (864103452,15), (864039010,15), (863974570,15), (863910134,15),
    (863845699,15), (863781268,15), (863716839,15), (863652414,15), (863587990,15), (863523570,15), (863459152,15), (863394738,15), (863330326,15), (863265916,15), (863201510,15), (863137106,15), (863072705,15), (863008306,15), (862943911,15), (862879518,15),
    (862815128,15), (862750741,15), (862686356,15), (862621974,15), (862557595,15), (862493219,15), (862428846,15), (862364475,15), (862300107,15), (862235742,15), (862171379,15), (862107019,15), (862042662,15), (861978308,15), (861913957,15), (861849608,15),
    (861785262,15), (861720919,15), (861656578,15), (861592240,15), (861527905,15), (861463573,15), (861399244,15), (861334917,15), (861270593,15), (861206272,15), (861141953,15), (861077638,15), (861013325,15), (860949014,15), (860884707,15), (860820402,15),
    (860756100,15), (860691801,15), (860627504,15), (860563211,15), (860498920,15), (860434631,15), (860370346,15), (860306063,15), (860241783,15), (860177506,15), (860113231,15), (860048960,15), (859984691,15), (859920424,15), (859856161,15), (859791900,15),
    (859727642,15), (859663387,15), (859599134,15), (859534885,15), (859470638,15), (859406393,15), (859342152,15), (859277913,15), (859213677,15), (859149443,15), (859085213,15), (859020985,15), (858956760,15), (858892538,15), (858828318,15), (858764101,15),
    (858699887,15), (858635676,15), (858571467,15), (858507261,15), (858443058,15), (858378858,15), (858314660,15), (858250465,15), (858186273,15), (858122084,15), (858057897,15), (857993713,15), (857929532,15), (857865353,15), (857801178,15), (857737005,15),
    (857672834,15), (857608667,15), (857544502,15), (857480340,15), (857416181,15), (857352024,15), (857287870,15), (857223719,15), (857159571,15), (857095425,15), (857031283,15), (856967142,15), (856903005,15), (856838870,15), (856774739,15), (856710609,15),
    (856646483,15), (856582359,15), (856518238,15), (856454120,15), (856390005,15), (856325892,15), (856261782,15), (856197675,15), (856133570,15), (856069468,15), (856005369,15), (855941273,15), (855877180,15), (855813089,15), (855749001,15), (855684915,15),
    (855620833,15), (855556753,15), (855492676,15), (855428601,15), (855364529,15), (855300460,15), (855236394,15), (855172331,15), (855108270,15), (855044212,15), (854980157,15), (854916104,15), (854852054,15), (854788007,15), (854723963,15), (854659921,15),
    (854595882,15), (854531846,15), (854467813,15), (854403782,15), (854339754,15), (854275729,15), (854211706,15), (854147686,15), (854083669,15), (854019655,15), (853955644,15), (853891635,15), (853827629,15), (853763625,15), (853699624,15), (853635627,15),
    (853571631,15), (853507639,15), (853443649,15), (853379662,15), (853315678,15), (853251696,15), (853187717,15), (853123741,15), (853059768,15), (852995797,15), (852931829,15), (852867864,15), (852803902,15), (852739942,15), (852675985,15), (852612031,15),
    (852548079,15), (852484130,15), (852420184,15), (852356241,15), (852292300,15), (852228362,15), (852164427,15), (852100494,15), (852036565,15), (851972638,15), (851908713,15), (851844792,15), (851780873,15), (851716957,15), (851653043,15), (851589133,15),
    (851525225,15), (851461319,15), (851397417,15), (851333517,15), (851269620,15), (851205726,15), (851141834,15), (851077945,15), (851014059,15), (850950176,15), (850886295,15), (850822417,15), (850758542,15), (850694669,15), (850630799,15), (850566932,15),
    (850503068,15), (850439206,15), (850375347,15), (850311491,15), (850247637,15), (850183786,15), (850119938,15), (850056093,15), (849992250,15), (849928410,15), (849864573,15), (849800739,15), (849736907,15), (849673078,15), (849609252,15), (849545428,15),
    (849481607,15), (849417789,15), (849353973,15), (849290161,15), (849226351,15), (849162543,15), (849098739,15), (849034937,15), (848971138,15), (848907341,15), (848843548,15), (848779757,15), (848715968,15), (848652183,15), (848588400,15), (848524620,15),
    (848460842,15), (848397068,15), (848333296,15), (848269526,15), (848205760,15), (848141996,15), (848078235,15), (848014476,15), (847950721,15), (847886968,15), (847823217,15), (847759470,15), (847695725,15), (847631983,15), (847568243,15), (847504507,15),
    (847440773,15), (847377041,15), (847313313,15), (847249587,15), (847185864,15), (847122143,15), (847058426,15), (846994711,15), (846930998,15), (846867289,15), (846803582,15), (846739878,15), (846676176,15), (846612477,15), (846548781,15), (846485088,15),
    (846421397,15), (846357710,15), (846294024,15), (846230342,15), (846166662,15), (846102985,15), (846039311,15), (845975639,15), (845911970,15), (845848304,15), (845784640,15), (845720979,15), (845657321,15), (845593666,15), (845530013,15), (845466363,15),
    (845402716,15), (845339071,15), (845275430,15), (845211790,15), (845148154,15), (845084520,15), (845020889,15), (844957261,15), (844893635,15), (844830012,15), (844766392,15), (844702774,15), (844639160,15), (844575548,15), (844511938,15), (844448331,15),
    (844384727,15), (844321126,15), (844257528,15), (844193932,15), (844130338,15), (844066748,15), (844003160,15), (843939575,15), (843875993,15), (843812413,15), (843748836,15), (843685262,15), (843621690,15), (843558121,15), (843494555,15), (843430992,15),
    (843367431,15), (843303873,15), (843240318,15), (843176765,15), (843113215,15), (843049668,15), (842986123,15), (842922581,15), (842859042,15), (842795506,15), (842731972,15), (842668441,15), (842604913,15), (842541387,15), (842477864,15), (842414344,15),
    (842350826,15), (842287312,15), (842223799,15), (842160290,15), (842096783,15), (842033279,15), (841969778,15), (841906279,15), (841842783,15), (841779290,15), (841715799,15), (841652311,15), (841588826,15), (841525344,15), (841461864,15), (841398387,15),
    (841334913,15), (841271441,15), (841207972,15), (841144506,15), (841081042,15), (841017581,15), (840954123,15), (840890667,15), (840827214,15), (840763764,15), (840700317,15), (840636872,15), (840573430,15), (840509991,15), (840446554,15), (840383120,15),
    (840319689,15), (840256260,15), (840192834,15), (840129411,15), (840065991,15), (840002573,15), (839939158,15), (839875745,15), (839812336,15), (839748929,15), (839685524,15), (839622123,15), (839558724,15), (839495327,15), (839431934,15), (839368543,15),
    (839305155,15), (839241769,15), (839178386,15), (839115006,15), (839051629,15), (838988254,15), (838924882,15), (838861513,15), (838798146,15), (838734782,15), (838671421,15), (838608062,15), (838544706,15), (838481353,15), (838418002,15), (838354654,15),
    (838291309,15), (838227967,15), (838164627,15), (838101290,15), (838037955,15), (837974624,15), (837911294,15), (837847968,15), (837784644,15), (837721323,15), (837658005,15), (837594690,15), (837531377,15), (837468066,15), (837404759,15), (837341454,15),
    (837278152,15), (837214852,15), (837151555,15), (837088261,15), (837024970,15), (836961681,15), (836898395,15), (836835111,15), (836771831,15), (836708553,15), (836645277,15), (836582005,15), (836518735,15), (836455467,15), (836392203,15), (836328941,15),
    (836265682,15), (836202425,15), (836139171,15), (836075920,15), (836012671,15), (835949426,15), (835886182,15), (835822942,15), (835759704,15), (835696469,15), (835633237,15), (835570007,15), (835506780,15), (835443555,15), (835380334,15), (835317115,15),
    (835253898,15), (835190684,15), (835127473,15), (835064265,15), (835001060,15), (834937857,15), (834874656,15), (834811459,15), (834748264,15), (834685071,15), (834621882,15), (834558695,15), (834495511,15), (834432329,15), (834369150,15), (834305974,15),
    (834242801,15), (834179630,15), (834116462,15), (834053296,15), (833990133,15), (833926973,15), (833863816,15), (833800661,15), (833737509,15), (833674360,15), (833611213,15), (833548069,15), (833484927,15), (833421789,15), (833358653,15), (833295519,15),
    (833232388,15), (833169260,15), (833106135,15), (833043012,15), (832979892,15), (832916775,15), (832853660,15), (832790548,15), (832727439,15), (832664332,15), (832601229,15), (832538127,15), (832475029,15), (832411933,15), (832348839,15), (832285749,15),
    (832222661,15), (832159576,15), (832096493,15), (832033413,15), (831970336,15), (831907261,15), (831844189,15), (831781120,15), (831718054,15), (831654990,15), (831591928,15), (831528870,15), (831465814,15), (831402761,15), (831339710,15), (831276662,15),
    (831213617,15), (831150575,15), (831087535,15), (831024497,15), (830961463,15), (830898431,15), (830835402,15), (830772375,15), (830709351,15), (830646330,15), (830583312,15), (830520296,15), (830457283,15), (830394272,15), (830331264,15), (830268259,15),
    (830205256,15), (830142257,15), (830079259,15), (830016265,15), (829953273,15), (829890284,15), (829827297,15), (829764313,15), (829701332,15), (829638354,15), (829575378,15), (829512404,15), (829449434,15), (829386466,15), (829323501,15), (829260538,15),
    (829197578,15), (829134621,15), (829071666,15), (829008715,15), (828945765,15), (828882819,15), (828819875,15), (828756934,15), (828693995,15), (828631059,15), (828568126,15), (828505195,15), (828442267,15), (828379342,15), (828316419,15), (828253499,15),
    (828190582,15), (828127667,15), (828064755,15), (828001846,15), (827938939,15), (827876035,15), (827813134,15), (827750235,15), (827687339,15), (827624446,15), (827561555,15), (827498667,15), (827435782,15), (827372899,15), (827310019,15), (827247141,15),
    (827184267,15), (827121395,15), (827058525,15), (826995658,15), (826932794,15), (826869933,15), (826807074,15), (826744218,15), (826681364,15), (826618513,15), (826555665,15), (826492820,15), (826429977,15), (826367137,15), (826304299,15), (826241464,15),
    (826178632,15), (826115802,15), (826052975,15), (825990151,15), (825927329,15), (825864510,15), (825801694,15), (825738880,15), (825676069,15), (825613261,15), (825550455,15), (825487652,15), (825424852,15), (825362054,15), (825299259,15), (825236466,15),
    (825173677,15), (825110890,15), (825048105,15), (824985323,15), (824922544,15), (824859767,15), (824796994,15), (824734222,15), (824671454,15), (824608688,15), (824545925,15), (824483164,15), (824420406,15), (824357651,15), (824294898,15), (824232148,15),
    (824169401,15), (824106656,15), (824043914,15), (823981174,15), (823918438,15), (823855703,15), (823792972,15), (823730243,15), (823667517,15), (823604793,15), (823542072,15), (823479354,15), (823416639,15), (823353926,15), (823291215,15), (823228508,15),
    (823165803,15), (823103100,15), (823040401,15), (822977704,15), (822915009,15), (822852317,15), (822789628,15), (822726942,15), (822664258,15), (822601577,15), (822538898,15), (822476222,15), (822413549,15), (822350879,15), (822288211,15), (822225545,15),
    (822162883,15), (822100223,15), (822037565,15), (821974910,15), (821912258,15), (821849609,15), (821786962,15), (821724318,15), (821661676,15), (821599038,15), (821536401,15), (821473768,15), (821411137,15), (821348509,15), (821285883,15), (821223260,15),
    (821160639,15), (821098022,15), (821035407,15), (820972794,15), (820910184,15), (820847577,15), (820784973,15), (820722371,15), (820659772,15), (820597175,15), (820534581,15), (820471990,15), (820409401,15), (820346815,15), (820284231,15), (820221651,15),
    (820159073,15), (820096497,15), (820033924,15), (819971354,15), (819908786,15), (819846221,15), (819783659,15), (819721100,15), (819658542,15), (819595988,15), (819533436,15), (819470887,15), (819408341,15), (819345797,15), (819283256,15), (819220717,15),
    (819158181,15), (819095648,15), (819033117,15), (818970589,15), (818908064,15), (818845541,15), (818783021,15), (818720504,15), (818657989,15), (818595477,15), (818532967,15), (818470460,15), (818407956,15), (818345454,15), (818282955,15), (818220459,15),
    (818157965,15), (818095474,15), (818032985,15), (817970499,15), (817908016,15), (817845536,15), (817783058,15), (817720582,15), (817658110,15), (817595639,15), (817533172,15), (817470707,15), (817408245,15), (817345786,15), (817283329,15), (817220874,15),
    (817158423,15), (817095974,15), (817033527,15), (816971084,15), (816908642,15), (816846204,15), (816783768,15), (816721335,15), (816658904,15), (816596476,15), (816534051,15), (816471628,15), (816409208,15), (816346791,15), (816284376,15), (816221964,15),
    (816159554,15), (816097147,15), (816034743,15), (815972341,15), (815909942,15), (815847546,15), (815785152,15), (815722761,15), (815660372,15), (815597986,15), (815535603,15), (815473222,15), (815410844,15), (815348469,15), (815286096,15), (815223726,15),
    (815161358,15), (815098993,15), (815036631,15), (814974271,15), (814911914,15), (814849560,15), (814787208,15), (814724859,15), (814662513,15), (814600169,15), (814537827,15), (814475489,15), (814413153,15), (814350819,15), (814288488,15), (814226160,15),
    (814163835,15), (814101512,15), (814039192,15), (813976874,15), (813914559,15), (813852246,15), (813789937,15), (813727629,15), (813665325,15), (813603023,15), (813540724,15), (813478427,15), (813416133,15), (813353841,15), (813291552,15), (813229266,15),
    (813166983,15), (813104702,15), (813042423,15), (812980148,15), (812917874,15), (812855604,15), (812793336,15), (812731071,15), (812668808,15), (812606548,15), (812544291,15), (812482036,15), (812419784,15), (812357534,15), (812295287,15), (812233043,15),
    (812170801,15), (812108562,15), (812046326,15), (811984092,15), (811921861,15), (811859632,15), (811797406,15), (811735183,15), (811672962,15), (811610744,15), (811548529,15), (811486316,15), (811424105,15), (811361898,15), (811299693,15), (811237490,15),
    (811175290,15), (811113093,15), (811050899,15), (810988707,15), (810926517,15), (810864330,15), (810802146,15), (810739965,15), (810677786,15), (810615610,15), (810553436,15), (810491265,15), (810429096,15), (810366931,15), (810304767,15), (810242607,15),
    (810180449,15), (810118293,15), (810056141,15), (809993990,15), (809931843,15), (809869698,15), (809807556,15), (809745416,15), (809683279,15), (809621144,15), (809559012,15), (809496883,15), (809434756,15), (809372632,15), (809310511,15), (809248392,15),
    (809186276,15), (809124162,15), (809062051,15), (808999943,15), (808937837,15), (808875734,15), (808813633,15), (808751535,15), (808689440,15), (808627347,15), (808565257,15), (808503170,15), (808441085,15), (808379003,15), (808316923,15), (808254846,15),
    (808192771,15), (808130699,15), (808068630,15), (808006563,15), (807944499,15), (807882438,15), (807820379,15), (807758323,15), (807696269,15), (807634218,15), (807572170,15), (807510124,15), (807448081,15), (807386040,15), (807324002,15), (807261967,15),
    (807199934,15), (807137904,15), (807075876,15), (807013851,15), (806951829,15), (806889809,15), (806827792,15), (806765777,15), (806703766,15), (806641756,15), (806579749,15), (806517745,15), (806455744,15), (806393745,15), (806331748,15), (806269755,15),
    (806207764,15), (806145775,15), (806083789,15), (806021806,15), (805959825,15), (805897847,15), (805835871,15), (805773899,15), (805711928,15), (805649960,15), (805587995,15), (805526033,15), (805464073,15), (805402116,15), (805340161,15), (805278209,15),
    (805216259,15), (805154312,15), (805092368,15), (805030426,15), (804968487,15), (804906551,15), (804844617,15), (804782685,15), (804720757,15), (804658831,15), (804596907,15), (804534986,15), (804473068,15), (804411152,15), (804349239,15), (804287328,15),
    (804225420,15), (804163515,15), (804101612,15), (804039712,15), (803977815,15), (803915920,15), (803854027,15), (803792137,15), (803730250,15), (803668366,15), (803606484,15), (803544604,15), (803482727,15), (803420853,15), (803358982,15), (803297113,15),
    (803235246,15), (803173382,15), (803111521,15), (803049663,15), (802987806,15), (802925953,15), (802864102,15), (802802254,15), (802740408,15), (802678565,15), (802616725,15), (802554887,15), (802493051,15), (802431219,15), (802369389,15), (802307561,15),
    (802245736,15), (802183914,15), (802122094,15), (802060277,15), (801998462,15), (801936650,15), (801874841,15), (801813034,15), (801751230,15), (801689428,15), (801627629,15), (801565833,15), (801504039,15), (801442248,15), (801380459,15), (801318673,15),
    (801256890,15), (801195109,15), (801133330,15), (801071555,15), (801009782,15), (800948011,15), (800886243,15), (800824478,15), (800762715,15), (800700955,15), (800639197,15), (800577442,15), (800515690,15), (800453940,15), (800392193,15), (800330448,15),
    (800268706,15), (800206966,15), (800145229,15), (800083495,15), (800021763,15), (799960034,15), (799898308,15), (799836584,15), (799774862,15), (799713143,15), (799651427,15), (799589714,15), (799528002,15), (799466294,15), (799404588,15), (799342885,15),
    (799281184,15), (799219486,15), (799157790,15), (799096097,15), (799034407,15), (798972719,15), (798911034,15), (798849351,15), (798787671,15), (798725994,15), (798664319,15), (798602647,15), (798540977,15), (798479310,15), (798417645,15), (798355983,15),
    (798294324,15), (798232667,15), (798171013,15), (798109361,15), (798047712,15), (797986065,15), (797924422,15), (797862780,15), (797801141,15), (797739505,15), (797677872,15), (797616241,15), (797554612,15), (797492986,15), (797431363,15), (797369742,15),
    (797308124,15), (797246509,15), (797184896,15), (797123285,15), (797061678,15), (797000072,15), (796938470,15), (796876870,15), (796815272,15), (796753677,15), (796692085,15), (796630495,15), (796568908,15), (796507323,15), (796445741,15), (796384162,15),
    (796322585,15), (796261011,15), (796199439,15), (796137870,15), (796076303,15), (796014739,15), (795953178,15), (795891619,15), (795830062,15), (795768509,15), (795706958,15), (795645409,15), (795583863,15), (795522320,15), (795460779,15), (795399241,15),
    (795337705,15), (795276172,15), (795214641,15), (795153113,15), (795091588,15), (795030065,15), (794968545,15), (794907027,15), (794845512,15), (794783999,15), (794722489,15), (794660982,15), (794599477,15), (794537975,15), (794476475,15), (794414978,15),
    (794353484,15), (794291992,15), (794230502,15), (794169015,15), (794107531,15), (794046050,15), (793984570,15), (793923094,15), (793861620,15), (793800149,15), (793738680,15), (793677213,15), (793615750,15), (793554289,15), (793492830,15), (793431374,15),
    (793369921,15), (793308470,15), (793247021,15), (793185576,15), (793124133,15), (793062692,15), (793001254,15), (792939819,15), (792878386,15), (792816955,15), (792755528,15), (792694102,15), (792632680,15), (792571260,15), (792509842,15), (792448427,15),
    (792387015,15), (792325605,15), (792264198,15), (792202793,15), (792141391,15), (792079992,15), (792018595,15), (791957200,15), (791895809,15), (791834419,15), (791773033,15), (791711648,15), (791650267,15), (791588888,15), (791527511,15), (791466138,15),
    (791404766,15), (791343397,15), (791282031,15), (791220668,15), (791159307,15), (791097948,15), (791036592,15), (790975239,15), (790913888,15), (790852540,15), (790791194,15), (790729851,15), (790668510,15), (790607172,15), (790545837,15), (790484504,15),
    (790423174,15), (790361846,15), (790300521,15), (790239198,15), (790177878,15), (790116560,15), (790055245,15), (789993933,15), (789932623,15), (789871316,15), (789810011,15), (789748709,15), (789687409,15), (789626112,15), (789564818,15), (789503526,15),
    (789442236,15), (789380950,15), (789319665,15), (789258384,15), (789197104,15), (789135828,15), (789074554,15), (789013282,15), (788952013,15), (788890747,15), (788829483,15), (788768222,15), (788706963,15), (788645707,15), (788584454,15), (788523203,15),
    (788461954,15), (788400708,15), (788339465,15), (788278224,15), (788216986,15), (788155750,15), (788094517,15), (788033286,15), (787972058,15), (787910833,15), (787849610,15), (787788389,15), (787727172,15), (787665956,15), (787604744,15), (787543533,15),
    (787482326,15), (787421121,15), (787359918,15), (787298718,15), (787237521,15), (787176326,15), (787115134,15), (787053944,15), (786992757,15), (786931572,15), (786870390,15), (786809211,15), (786748034,15), (786686859,15), (786625687,15), (786564518,15),
    (786503351,15), (786442187,15), (786381025,15), (786319866,15), (786258710,15), (786197556,15), (786136404,15), (786075255,15), (786014109,15), (785952965,15), (785891824,15), (785830685,15), (785769549,15), (785708415,15), (785647284,15), (785586155,15),
    (785525029,15), (785463906,15), (785402785,15), (785341667,15), (785280551,15), (785219438,15), (785158327,15), (785097219,15), (785036113,15), (784975010,15), (784913910,15), (784852812,15), (784791716,15), (784730623,15), (784669533,15), (784608445,15),
    (784547360,15), (784486277,15), (784425197,15), (784364119,15), (784303044,15), (784241972,15), (784180902,15), (784119834,15), (784058769,15), (783997707,15), (783936647,15), (783875590,15), (783814535,15), (783753483,15), (783692434,15), (783631386,15),
    (783570342,15), (783509300,15), (783448260,15), (783387224,15), (783326189,15), (783265157,15), (783204128,15), (783143101,15), (783082077,15), (783021055,15), (782960036,15), (782899020,15), (782838006,15), (782776994,15), (782715985,15), (782654979,15),
    (782593975,15), (782532973,15), (782471975,15), (782410978,15), (782349985,15), (782288993,15), (782228005,15), (782167019,15), (782106035,15), (782045054,15), (781984076,15), (781923100,15), (781862126,15), (781801155,15), (781740187,15), (781679221,15),
    (781618258,15), (781557297,15), (781496339,15), (781435383,15), (781374430,15), (781313480,15), (781252532,15), (781191586,15), (781130643,15), (781069703,15), (781008765,15), (780947830,15), (780886897,15), (780825966,15), (780765039,15), (780704113,15),
    (780643191,15), (780582271,15), (780521353,15), (780460438,15), (780399525,15), (780338615,15), (780277708,15), (780216803,15), (780155901,15), (780095001,15), (780034103,15), (779973209,15), (779912316,15), (779851427,15), (779790539,15), (779729655,15),
    (779668773,15), (779607893,15), (779547016,15), (779486141,15), (779425269,15), (779364400,15), (779303533,15), (779242668,15), (779181807,15), (779120947,15), (779060090,15), (778999236,15), (778938384,15), (778877535,15), (778816688,15), (778755844,15),
    (778695003,15), (778634163,15), (778573327,15), (778512493,15), (778451661,15), (778390832,15), (778330006,15), (778269182,15), (778208361,15), (778147542,15), (778086725,15), (778025912,15), (777965100,15), (777904291,15), (777843485,15), (777782682,15),
    (777721880,15), (777661082,15), (777600286,15), (777539492,15), (777478701,15), (777417912,15), (777357126,15), (777296343,15), (777235562,15), (777174783,15), (777114008,15), (777053234,15), (776992463,15), (776931695,15), (776870929,15), (776810166,15),
    (776749405,15), (776688647,15), (776627891,15), (776567138,15), (776506387,15), (776445639,15), (776384894,15), (776324150,15), (776263410,15), (776202672,15), (776141936,15), (776081203,15), (776020473,15), (775959745,15), (775899020,15), (775838297,15),
    (775777576,15), (775716858,15), (775656143,15), (775595430,15), (775534720,15), (775474012,15), (775413307,15), (775352604,15), (775291904,15), (775231206,15), (775170511,15), (775109819,15), (775049128,15), (774988441,15), (774927756,15), (774867073,15),
    (774806393,15), (774745716,15), (774685041,15), (774624368,15), (774563698,15), (774503031,15), (774442366,15), (774381703,15), (774321043,15), (774260386,15), (774199731,15), (774139079,15), (774078429,15), (774017782,15), (773957137,15), (773896495,15),
    (773835855,15), (773775218,15), (773714583,15), (773653951,15), (773593321,15), (773532694,15), (773472069,15), (773411447,15), (773350828,15), (773290211,15), (773229596,15), (773168984,15), (773108374,15), (773047767,15), (772987163,15), (772926561,15),
    (772865961,15), (772805365,15), (772744770,15), (772684178,15), (772623589,15), (772563002,15), (772502417,15), (772441836,15), (772381256,15), (772320679,15), (772260105,15), (772199533,15), (772138964,15), (772078397,15), (772017833,15), (771957271,15),
    (771896712,15), (771836155,15), (771775601,15), (771715049,15), (771654500,15), (771593953,15), (771533409,15), (771472867,15), (771412328,15), (771351791,15), (771291257,15), (771230726,15), (771170196,15), (771109670,15), (771049146,15), (770988624,15),
    (770928105,15), (770867588,15), (770807074,15), (770746563,15), (770686054,15), (770625547,15), (770565043,15), (770504542,15), (770444043,15), (770383546,15), (770323052,15), (770262561,15), (770202072,15), (770141585,15), (770081101,15), (770020620,15),
    (769960141,15), (769899665,15), (769839191,15), (769778719,15), (769718250,15), (769657784,15), (769597320,15), (769536859,15), (769476400,15), (769415943,15), (769355489,15), (769295038,15), (769234589,15), (769174143,15), (769113699,15), (769053258,15),
    (768992819,15), (768932382,15), (768871949,15), (768811517,15), (768751088,15), (768690662,15), (768630238,15), (768569817,15), (768509398,15), (768448982,15), (768388568,15), (768328157,15), (768267748,15), (768207342,15), (768146938,15), (768086537,15),
    (768026138,15), (767965742,15), (767905348,15), (767844956,15), (767784568,15), (767724181,15), (767663798,15), (767603416,15), (767543038,15), (767482661,15), (767422288,15), (767361916,15), (767301547,15), (767241181,15), (767180817,15), (767120456,15),
    (767060097,15), (766999741,15), (766939387,15), (766879036,15), (766818687,15), (766758341,15), (766697997,15), (766637656,15), (766577317,15), (766516981,15), (766456647,15), (766396316,15), (766335987,15), (766275661,15), (766215337,15), (766155016,15),
    (766094697,15), (766034381,15), (765974067,15), (765913756,15), (765853447,15), (765793141,15), (765732837,15), (765672535,15), (765612237,15), (765551940,15), (765491647,15), (765431355,15), (765371066,15), (765310780,15), (765250496,15), (765190215,15),
    (765129936,15), (765069660,15), (765009386,15), (764949114,15), (764888846,15), (764828579,15), (764768315,15), (764708054,15), (764647795,15), (764587539,15), (764527285,15), (764467033,15), (764406784,15), (764346538,15), (764286294,15), (764226053,15),
    (764165814,15), (764105577,15), (764045343,15), (763985112,15), (763924883,15), (763864656,15), (763804432,15), (763744211,15), (763683992,15), (763623775,15), (763563561,15), (763503350,15), (763443141,15), (763382934,15), (763322730,15), (763262528,15),
    (763202329,15), (763142133,15), (763081939,15), (763021747,15), (762961558,15), (762901371,15), (762841187,15), (762781006,15), (762720826,15), (762660650,15), (762600475,15), (762540304,15), (762480135,15), (762419968,15), (762359804,15), (762299642,15),
    (762239483,15), (762179326,15), (762119172,15), (762059020,15), (761998870,15), (761938724,15), (761878579,15), (761818437,15), (761758298,15), (761698161,15), (761638027,15), (761577895,15), (761517765,15), (761457638,15), (761397514,15), (761337392,15),
    (761277273,15), (761217156,15), (761157041,15), (761096929,15), (761036819,15), (760976712,15), (760916608,15), (760856506,15), (760796406,15), (760736309,15), (760676214,15), (760616122,15), (760556033,15), (760495945,15), (760435861,15), (760375778,15),
    (760315699,15), (760255621,15), (760195547,15), (760135474,15), (760075405,15), (760015337,15), (759955272,15), (759895210,15), (759835150,15), (759775093,15), (759715038,15), (759654985,15), (759594935,15), (759534888,15), (759474843,15), (759414800,15),
    (759354760,15), (759294723,15), (759234688,15), (759174655,15), (759114625,15), (759054597,15), (758994572,15), (758934550,15), (758874529,15), (758814512,15), (758754496,15), (758694484,15), (758634473,15), (758574466,15), (758514460,15), (758454457,15),
    (758394457,15), (758334459,15), (758274464,15), (758214471,15), (758154480,15), (758094492,15), (758034507,15), (757974524,15), (757914543,15), (757854565,15), (757794589,15), (757734616,15), (757674646,15), (757614678,15), (757554712,15), (757494749,15),
    (757434788,15), (757374830,15), (757314874,15), (757254920,15), (757194970,15), (757135021,15), (757075075,15), (757015132,15), (756955191,15), (756895252,15), (756835316,15), (756775383,15), (756715452,15), (756655523,15), (756595597,15), (756535674,15),
    (756475752,15), (756415834,15), (756355917,15), (756296004,15), (756236092,15), (756176184,15), (756116277,15), (756056373,15), (755996472,15), (755936573,15), (755876677,15), (755816783,15), (755756891,15), (755697002,15), (755637116,15), (755577232,15),
    (755517350,15), (755457471,15), (755397594,15), (755337720,15), (755277848,15), (755217979,15), (755158112,15), (755098248,15), (755038386,15), (754978527,15), (754918670,15), (754858815,15), (754798963,15), (754739114,15), (754679267,15), (754619422,15),
    (754559580,15), (754499740,15), (754439903,15), (754380068,15), (754320236,15), (754260406,15), (754200579,15), (754140754,15), (754080932,15), (754021112,15), (753961294,15), (753901479,15), (753841667,15), (753781857,15), (753722049,15), (753662244,15),
    (753602442,15), (753542641,15), (753482844,15), (753423048,15), (753363256,15), (753303465,15), (753243678,15), (753183892,15), (753124109,15), (753064329,15), (753004551,15), (752944775,15), (752885002,15), (752825232,15), (752765463,15), (752705698,15),
    (752645935,15), (752586174,15), (752526415,15), (752466660,15), (752406906,15), (752347155,15), (752287407,15), (752227661,15), (752167917,15), (752108176,15), (752048438,15), (751988702,15), (751928968,15), (751869237,15), (751809508,15), (751749782,15),
    (751690058,15), (751630337,15), (751570618,15), (751510901,15), (751451187,15), (751391476,15), (751331767,15), (751272060,15), (751212356,15), (751152654,15), (751092955,15), (751033258,15), (750973564,15), (750913872,15), (750854183,15), (750794496,15),
    (750734811,15), (750675129,15), (750615450,15), (750555773,15), (750496098,15), (750436426,15), (750376756,15), (750317089,15), (750257424,15), (750197762,15), (750138102,15), (750078444,15), (750018789,15), (749959137,15), (749899487,15), (749839839,15),
    (749780194,15), (749720551,15), (749660911,15), (749601273,15), (749541638,15), (749482005,15), (749422374,15), (749362746,15), (749303121,15), (749243498,15), (749183877,15), (749124259,15), (749064643,15), (749005030,15), (748945419,15), (748885811,15),
    (748826205,15), (748766602,15), (748707001,15), (748647402,15), (748587806,15), (748528212,15), (748468621,15), (748409033,15), (748349446,15), (748289862,15), (748230281,15), (748170702,15), (748111126,15), (748051552,15), (747991980,15), (747932411,15),
    (747872844,15), (747813280,15), (747753718,15), (747694159,15), (747634602,15), (747575048,15), (747515496,15), (747455946,15), (747396399,15), (747336855,15), (747277313,15), (747217773,15), (747158236,15), (747098701,15), (747039168,15), (746979639,15),
    (746920111,15), (746860586,15), (746801063,15), (746741543,15), (746682026,15), (746622510,15), (746562998,15), (746503487,15), (746443979,15), (746384474,15), (746324971,15), (746265471,15), (746205972,15), (746146477,15), (746086984,15), (746027493,15),
    (745968005,15), (745908519,15), (745849035,15), (745789554,15), (745730076,15), (745670600,15), (745611126,15), (745551655,15), (745492186,15), (745432720,15), (745373256,15), (745313795,15), (745254336,15), (745194879,15), (745135425,15), (745075973,15),
    (745016524,15), (744957077,15), (744897633,15), (744838191,15), (744778752,15), (744719315,15), (744659880,15), (744600448,15), (744541019,15), (744481591,15), (744422167,15), (744362744,15), (744303325,15), (744243907,15), (744184492,15), (744125080,15),
    (744065669,15), (744006262,15), (743946857,15), (743887454,15), (743828053,15), (743768656,15), (743709260,15), (743649867,15), (743590476,15), (743531088,15), (743471703,15), (743412319,15), (743352939,15), (743293560,15), (743234184,15), (743174811,15),
    (743115440,15), (743056071,15), (742996705,15), (742937341,15), (742877980,15), (742818621,15), (742759264,15), (742699910,15), (742640559,15), (742581210,15), (742521863,15), (742462519,15), (742403177,15), (742343838,15), (742284501,15), (742225166,15),
    (742165834,15), (742106505,15), (742047177,15), (741987853,15), (741928530,15), (741869210,15), (741809893,15), (741750578,15), (741691265,15), (741631955,15), (741572648,15), (741513342,15), (741454039,15), (741394739,15), (741335441,15), (741276146,15),
    (741216852,15), (741157562,15), (741098274,15), (741038988,15), (740979704,15), (740920423,15), (740861145,15), (740801869,15), (740742595,15), (740683324,15), (740624055,15), (740564789,15), (740505525,15), (740446264,15), (740387005,15), (740327748,15),
    (740268494,15), (740209242,15), (740149993,15), (740090746,15), (740031501,15), (739972259,15), (739913020,15), (739853783,15), (739794548,15), (739735316,15), (739676086,15), (739616858,15), (739557633,15), (739498411,15), (739439191,15), (739379973,15),
    (739320758,15), (739261545,15), (739202334,15), (739143126,15), (739083921,15), (739024718,15), (738965517,15), (738906319,15), (738847123,15), (738787929,15), (738728738,15), (738669550,15), (738610364,15), (738551180,15), (738491999,15), (738432820,15),
    (738373643,15), (738314469,15), (738255298,15), (738196129,15), (738136962,15), (738077797,15), (738018636,15), (737959476,15), (737900319,15), (737841165,15), (737782012,15), (737722863,15), (737663715,15), (737604570,15), (737545428,15), (737486288,15),
    (737427150,15), (737368015,15), (737308882,15), (737249752,15), (737190624,15), (737131498,15), (737072375,15), (737013255,15), (736954136,15), (736895021,15), (736835907,15), (736776796,15), (736717688,15), (736658582,15), (736599478,15), (736540377,15),
    (736481278,15), (736422181,15), (736363087,15), (736303996,15), (736244907,15), (736185820,15), (736126736,15), (736067654,15), (736008574,15), (735949497,15), (735890422,15), (735831350,15), (735772280,15), (735713213,15), (735654148,15), (735595086,15),
    (735536025,15), (735476968,15), (735417912,15), (735358860,15), (735299809,15), (735240761,15), (735181716,15), (735122672,15), (735063632,15), (735004593,15), (734945557,15), (734886524,15), (734827493,15), (734768464,15), (734709438,15), (734650414,15),
    (734591393,15), (734532374,15), (734473357,15), (734414343,15), (734355331,15), (734296322,15), (734237315,15), (734178310,15), (734119308,15), (734060309,15), (734001311,15), (733942316,15), (733883324,15), (733824334,15), (733765346,15), (733706361,15),
    (733647378,15), (733588398,15), (733529420,15), (733470445,15), (733411472,15), (733352501,15), (733293533,15), (733234567,15), (733175603,15), (733116642,15), (733057684,15), (732998727,15), (732939774,15), (732880822,15), (732821873,15), (732762927,15),
    (732703983,15), (732645041,15), (732586102,15), (732527165,15), (732468230,15), (732409298,15), (732350368,15), (732291441,15), (732232516,15), (732173594,15), (732114674,15), (732055756,15), (731996841,15), (731937928,15), (731879018,15), (731820110,15),
    (731761204,15), (731702301,15), (731643400,15), (731584502,15), (731525606,15), (731466713,15), (731407822,15), (731348933,15), (731290047,15), (731231163,15), (731172281,15), (731113402,15), (731054526,15), (730995651,15), (730936779,15), (730877910,15),
    (730819043,15), (730760178,15), (730701316,15), (730642456,15), (730583599,15), (730524744,15), (730465891,15), (730407041,15), (730348194,15), (730289348,15), (730230505,15), (730171665,15), (730112827,15), (730053991,15), (729995158,15), (729936327,15),
    (729877498,15), (729818672,15), (729759848,15), (729701027,15), (729642208,15), (729583392,15), (729524578,15), (729465766,15), (729406957,15), (729348150,15), (729289345,15), (729230543,15), (729171744,15), (729112946,15), (729054152,15), (728995359,15),
    (728936569,15), (728877781,15), (728818996,15), (728760213,15), (728701433,15), (728642655,15), (728583879,15), (728525106,15), (728466335,15), (728407567,15), (728348801,15), (728290037,15), (728231276,15), (728172517,15), (728113761,15), (728055007,15),
    (727996255,15), (727937506,15), (727878759,15), (727820015,15), (727761273,15), (727702533,15), (727643796,15), (727585061,15), (727526329,15), (727467599,15), (727408871,15), (727350146,15), (727291423,15), (727232703,15), (727173985,15), (727115269,15),
    (727056556,15), (726997845,15), (726939137,15), (726880431,15), (726821727,15), (726763026,15), (726704327,15), (726645630,15), (726586936,15), (726528245,15), (726469556,15), (726410869,15), (726352184,15), (726293502,15), (726234823,15), (726176145,15),
    (726117471,15), (726058798,15), (726000128,15), (725941460,15), (725882795,15), (725824132,15), (725765472,15), (725706814,15), (725648158,15), (725589505,15), (725530854,15), (725472205,15), (725413559,15), (725354915,15), (725296274,15), (725237635,15),
    (725178999,15), (725120364,15), (725061733,15), (725003103,15), (724944476,15), (724885852,15), (724827230,15), (724768610,15), (724709992,15), (724651377,15), (724592765,15), (724534155,15), (724475547,15), (724416941,15), (724358338,15), (724299738,15),
    (724241139,15), (724182544,15), (724123950,15), (724065359,15), (724006770,15), (723948184,15), (723889600,15), (723831019,15), (723772439,15), (723713863,15), (723655288,15), (723596716,15), (723538147,15), (723479580,15), (723421015,15), (723362452,15),
    (723303892,15), (723245335,15), (723186780,15), (723128227,15), (723069676,15), (723011128,15), (722952582,15), (722894039,15), (722835498,15), (722776960,15), (722718424,15), (722659890,15), (722601359,15), (722542830,15), (722484303,15), (722425779,15),
    (722367257,15), (722308738,15), (722250221,15), (722191706,15), (722133194,15), (722074684,15), (722016176,15), (721957671,15), (721899168,15), (721840668,15), (721782170,15), (721723675,15), (721665181,15), (721606691,15), (721548202,15), (721489716,15),
    (721431233,15), (721372751,15), (721314272,15), (721255796,15), (721197322,15), (721138850,15), (721080381,15), (721021914,15), (720963449,15), (720904987,15), (720846527,15), (720788070,15), (720729615,15), (720671162,15), (720612712,15), (720554264,15),
    (720495818,15), (720437375,15), (720378935,15), (720320496,15), (720262060,15), (720203627,15), (720145195,15), (720086767,15), (720028340,15), (719969916,15), (719911494,15), (719853075,15), (719794658,15), (719736244,15), (719677831,15), (719619422,15),
    (719561014,15), (719502609,15), (719444207,15), (719385806,15), (719327408,15), (719269013,15), (719210620,15), (719152229,15), (719093841,15), (719035455,15), (718977071,15), (718918690,15), (718860311,15), (718801934,15), (718743560,15), (718685189,15),
    (718626819,15), (718568452,15), (718510088,15), (718451725,15), (718393366,15), (718335008,15), (718276653,15), (718218300,15), (718159950,15), (718101602,15), (718043256,15), (717984913,15), (717926572,15), (717868234,15), (717809898,15), (717751564,15),
    (717693233,15), (717634904,15), (717576577,15), (717518253,15), (717459931,15), (717401612,15), (717343295,15), (717284980,15), (717226668,15), (717168358,15), (717110050,15), (717051745,15), (716993442,15), (716935141,15), (716876843,15), (716818548,15),
    (716760254,15), (716701963,15), (716643675,15), (716585388,15), (716527105,15), (716468823,15), (716410544,15), (716352267,15), (716293993,15), (716235721,15), (716177451,15), (716119184,15), (716060919,15), (716002657,15), (715944396,15), (715886139,15),
    (715827883,15), (715769630,15), (715711379,15), (715653131,15), (715594885,15), (715536642,15), (715478400,15), (715420162,15), (715361925,15), (715303691,15), (715245459,15), (715187230,15), (715129003,15), (715070779,15), (715012556,15), (714954336,15),
    (714896119,15), (714837904,15), (714779691,15), (714721481,15), (714663273,15), (714605067,15), (714546864,15), (714488663,15), (714430464,15), (714372268,15), (714314074,15), (714255883,15), (714197694,15), (714139507,15), (714081323,15), (714023141,15),
    (713964961,15), (713906784,15), (713848609,15), (713790436,15), (713732266,15), (713674098,15), (713615933,15), (713557770,15), (713499609,15), (713441451,15), (713383295,15), (713325141,15), (713266990,15), (713208841,15), (713150694,15), (713092550,15),
    (713034409,15), (712976269,15), (712918132,15), (712859997,15), (712801865,15), (712743735,15), (712685607,15), (712627482,15), (712569359,15), (712511239,15), (712453121,15), (712395005,15), (712336891,15), (712278780,15), (712220672,15), (712162565,15),
    (712104461,15), (712046360,15), (711988260,15), (711930163,15), (711872069,15), (711813977,15), (711755887,15), (711697799,15), (711639714,15), (711581631,15), (711523551,15), (711465473,15), (711407397,15), (711349324,15), (711291253,15), (711233184,15),
    (711175118,15), (711117054,15), (711058993,15), (711000934,15), (710942877,15), (710884822,15), (710826770,15), (710768721,15), (710710673,15), (710652628,15), (710594586,15), (710536545,15), (710478507,15), (710420472,15), (710362439,15), (710304408,15),
    (710246379,15), (710188353,15), (710130329,15), (710072308,15), (710014289,15), (709956272,15), (709898258,15), (709840246,15), (709782236,15), (709724229,15), (709666224,15), (709608221,15), (709550221,15), (709492223,15), (709434227,15), (709376234,15),
    (709318243,15), (709260255,15), (709202269,15), (709144285,15), (709086304,15), (709028325,15), (708970348,15), (708912374,15), (708854402,15), (708796432,15), (708738465,15), (708680500,15), (708622537,15), (708564577,15), (708506619,15), (708448664,15),
    (708390710,15), (708332760,15), (708274811,15), (708216865,15), (708158921,15), (708100980,15), (708043041,15), (707985104,15), (707927170,15), (707869238,15), (707811308,15), (707753381,15), (707695456,15), (707637533,15), (707579613,15), (707521695,15),
    (707463779,15), (707405866,15), (707347955,15), (707290047,15), (707232141,15), (707174237,15), (707116335,15), (707058436,15), (707000539,15), (706942645,15), (706884753,15), (706826863,15), (706768976,15), (706711091,15), (706653208,15), (706595328,15),
    (706537450,15), (706479574,15), (706421701,15), (706363830,15), (706305961,15), (706248095,15), (706190231,15), (706132370,15), (706074511,15), (706016654,15), (705958799,15), (705900947,15), (705843097,15), (705785250,15), (705727405,15), (705669562,15),
    (705611721,15), (705553883,15), (705496048,15), (705438214,15), (705380383,15), (705322554,15), (705264728,15), (705206904,15), (705149082,15), (705091263,15), (705033446,15), (704975631,15), (704917819,15), (704860009,15), (704802201,15), (704744396,15),
    (704686593,15), (704628793,15), (704570994,15), (704513198,15), (704455405,15), (704397614,15), (704339825,15), (704282038,15), (704224254,15), (704166472,15), (704108693,15), (704050915,15), (703993141,15), (703935368,15), (703877598,15), (703819830,15),
    (703762065,15), (703704302,15), (703646541,15), (703588782,15), (703531026,15), (703473272,15), (703415521,15), (703357772,15), (703300025,15), (703242281,15), (703184539,15), (703126799,15), (703069062,15), (703011327,15), (702953594,15), (702895863,15),
    (702838135,15), (702780410,15), (702722686,15), (702664965,15), (702607247,15), (702549530,15), (702491816,15), (702434105,15), (702376395,15), (702318688,15), (702260984,15), (702203281,15), (702145581,15), (702087884,15), (702030188,15), (701972495,15),
    (701914805,15), (701857116,15), (701799431,15), (701741747,15), (701684066,15), (701626387,15), (701568710,15), (701511036,15), (701453364,15), (701395694,15), (701338027,15), (701280362,15), (701222699,15), (701165039,15), (701107381,15), (701049725,15),
    (700992072,15), (700934421,15), (700876773,15), (700819126,15), (700761482,15), (700703841,15), (700646201,15), (700588564,15), (700530930,15), (700473298,15), (700415668,15), (700358040,15), (700300415,15), (700242792,15), (700185171,15), (700127553,15),
    (700069937,15), (700012323,15), (699954712,15), (699897103,15), (699839496,15), (699781892,15), (699724290,15), (699666690,15), (699609093,15), (699551498,15), (699493906,15), (699436315,15), (699378727,15), (699321142,15), (699263558,15), (699205977,15),
    (699148399,15), (699090822,15), (699033248,15), (698975676,15), (698918107,15), (698860540,15), (698802975,15), (698745413,15), (698687853,15), (698630295,15), (698572740,15), (698515187,15), (698457636,15), (698400088,15), (698342542,15), (698284998,15),
    (698227456,15), (698169917,15), (698112381,15), (698054846,15), (697997314,15), (697939784,15), (697882257,15), (697824732,15), (697767209,15), (697709688,15), (697652170,15), (697594654,15), (697537141,15), (697479630,15), (697422121,15), (697364614,15),
    (697307110,15), (697249608,15), (697192109,15), (697134611,15), (697077116,15), (697019624,15), (696962134,15), (696904646,15), (696847160,15), (696789677,15), (696732196,15), (696674717,15), (696617241,15), (696559767,15), (696502295,15), (696444826,15),
    (696387359,15), (696329894,15), (696272432,15), (696214972,15), (696157514,15), (696100058,15), (696042605,15), (695985155,15), (695927706,15), (695870260,15), (695812816,15), (695755375,15), (695697935,15), (695640499,15), (695583064,15), (695525632,15),
    (695468202,15), (695410774,15), (695353349,15), (695295926,15), (695238506,15), (695181087,15), (695123671,15), (695066258,15), (695008846,15), (694951437,15), (694894031,15), (694836626,15), (694779224,15), (694721824,15), (694664427,15), (694607032,15),
    (694549639,15), (694492249,15), (694434861,15), (694377475,15), (694320091,15), (694262710,15), (694205331,15), (694147955,15), (694090580,15), (694033208,15), (693975839,15), (693918471,15), (693861107,15), (693803744,15), (693746383,15), (693689025,15),
    (693631670,15), (693574316,15), (693516965,15), (693459617,15), (693402270,15), (693344926,15), (693287584,15), (693230245,15), (693172907,15), (693115573,15), (693058240,15), (693000910,15), (692943582,15), (692886256,15), (692828933,15), (692771612,15),
    (692714293,15), (692656977,15), (692599663,15), (692542351,15), (692485042,15), (692427734,15), (692370430,15), (692313127,15), (692255827,15), (692198529,15), (692141234,15), (692083940,15), (692026649,15), (691969361,15), (691912074,15), (691854790,15),
    (691797509,15), (691740229,15), (691682952,15), (691625678,15), (691568405,15), (691511135,15), (691453867,15), (691396602,15), (691339339,15), (691282078,15), (691224819,15), (691167563,15), (691110309,15), (691053057,15), (690995808,15), (690938561,15),
    (690881316,15), (690824074,15), (690766834,15), (690709596,15), (690652360,15), (690595127,15), (690537896,15), (690480668,15), (690423441,15), (690366218,15), (690308996,15), (690251777,15), (690194560,15), (690137345,15), (690080132,15), (690022922,15),
    (689965715,15), (689908509,15), (689851306,15), (689794105,15), (689736906,15), (689679710,15), (689622516,15), (689565325,15), (689508135,15), (689450948,15), (689393763,15), (689336581,15), (689279401,15), (689222223,15), (689165048,15), (689107874,15),
    (689050703,15), (688993535,15), (688936369,15), (688879205,15), (688822043,15), (688764883,15), (688707726,15), (688650572,15), (688593419,15), (688536269,15), (688479121,15), (688421976,15), (688364832,15), (688307691,15), (688250553,15), (688193416,15),
    (688136282,15), (688079151,15), (688022021,15), (687964894,15), (687907769,15), (687850647,15), (687793526,15), (687736408,15), (687679293,15), (687622179,15), (687565068,15), (687507960,15), (687450853,15), (687393749,15), (687336647,15), (687279548,15),
    (687222451,15), (687165356,15), (687108263,15), (687051173,15), (686994085,15), (686936999,15), (686879915,15), (686822834,15), (686765755,15), (686708679,15), (686651605,15), (686594533,15), (686537463,15), (686480396,15), (686423331,15), (686366268,15),
    (686309208,15), (686252149,15), (686195094,15), (686138040,15), (686080989,15), (686023940,15), (685966893,15), (685909849,15), (685852807,15), (685795767,15), (685738730,15), (685681694,15), (685624661,15), (685567631,15), (685510603,15), (685453577,15),
    (685396553,15), (685339531,15), (685282512,15), (685225496,15), (685168481,15), (685111469,15), (685054459,15), (684997451,15), (684940446,15), (684883443,15), (684826442,15), (684769444,15), (684712448,15), (684655454,15), (684598462,15), (684541473,15),
    (684484486,15), (684427501,15), (684370519,15), (684313539,15), (684256561,15), (684199585,15), (684142612,15), (684085641,15), (684028673,15), (683971706,15), (683914742,15), (683857780,15), (683800821,15), (683743864,15), (683686909,15), (683629956,15),
    (683573006,15), (683516058,15), (683459112,15), (683402169,15), (683345228,15), (683288289,15), (683231352,15), (683174418,15), (683117486,15), (683060556,15), (683003629,15), (682946704,15), (682889781,15), (682832860,15), (682775942,15), (682719026,15),
    (682662113,15), (682605201,15), (682548292,15), (682491385,15), (682434481,15), (682377579,15), (682320679,15), (682263781,15), (682206886,15), (682149993,15), (682093102,15), (682036213,15), (681979327,15), (681922443,15), (681865562,15), (681808682,15),
    (681751805,15), (681694930,15), (681638058,15), (681581188,15), (681524320,15), (681467454,15), (681410591,15), (681353730,15), (681296871,15), (681240014,15), (681183160,15), (681126308,15), (681069459,15), (681012611,15), (680955766,15), (680898924,15),
    (680842083,15), (680785245,15), (680728409,15), (680671575,15), (680614744,15), (680557915,15), (680501088,15), (680444264,15), (680387441,15), (680330622,15), (680273804,15), (680216989,15), (680160175,15), (680103365,15), (680046556,15), (679989750,15),
    (679932946,15), (679876144,15), (679819345,15), (679762548,15), (679705753,15), (679648960,15), (679592170,15), (679535382,15), (679478597,15), (679421813,15), (679365032,15), (679308253,15), (679251477,15), (679194702,15), (679137930,15), (679081161,15),
    (679024393,15), (678967628,15), (678910865,15), (678854104,15), (678797346,15), (678740590,15), (678683836,15), (678627085,15), (678570336,15), (678513589,15), (678456844,15), (678400102,15), (678343361,15), (678286624,15), (678229888,15), (678173155,15),
    (678116424,15), (678059695,15), (678002969,15), (677946245,15), (677889523,15), (677832803,15), (677776086,15), (677719371,15), (677662658,15), (677605948,15), (677549239,15), (677492533,15), (677435830,15), (677379128,15), (677322429,15), (677265732,15),
    (677209038,15), (677152346,15), (677095656,15), (677038968,15), (676982282,15), (676925599,15), (676868918,15), (676812240,15), (676755563,15), (676698889,15), (676642217,15), (676585548,15), (676528881,15), (676472216,15), (676415553,15), (676358893,15),
    (676302234,15), (676245579,15), (676188925,15), (676132274,15), (676075625,15), (676018978,15), (675962333,15), (675905691,15), (675849051,15), (675792413,15), (675735778,15), (675679145,15), (675622514,15), (675565885,15), (675509259,15), (675452635,15),
    (675396013,15), (675339394,15), (675282776,15), (675226161,15), (675169549,15), (675112938,15), (675056330,15), (674999724,15), (674943120,15), (674886519,15), (674829920,15), (674773323,15), (674716729,15), (674660136,15), (674603546,15), (674546959,15),
    (674490373,15), (674433790,15), (674377209,15), (674320630,15), (674264054,15), (674207480,15), (674150908,15), (674094338,15), (674037771,15), (673981206,15), (673924643,15), (673868083,15), (673811524,15), (673754968,15), (673698415,15), (673641863,15),
    (673585314,15), (673528767,15), (673472223,15), (673415680,15), (673359140,15), (673302602,15), (673246067,15), (673189533,15), (673133002,15), (673076473,15), (673019947,15), (672963423,15), (672906901,15), (672850381,15), (672793864,15), (672737348,15),
    (672680835,15), (672624325,15), (672567816,15), (672511310,15), (672454806,15), (672398305,15), (672341805,15), (672285308,15), (672228814,15), (672172321,15), (672115831,15), (672059343,15), (672002857,15), (671946373,15), (671889892,15), (671833413,15),
    (671776937,15), (671720462,15), (671663990,15), (671607520,15), (671551052,15), (671494587,15), (671438124,15), (671381663,15), (671325204,15), (671268748,15), (671212294,15), (671155842,15), (671099393,15), (671042945,15), (670986500,15), (670930057,15),
    (670873617,15), (670817179,15), (670760743,15), (670704309,15), (670647877,15), (670591448,15), (670535021,15), (670478597,15), (670422174,15), (670365754,15), (670309336,15), (670252920,15), (670196507,15), (670140096,15), (670083687,15), (670027280,15),
    (669970876,15), (669914474,15), (669858074,15), (669801676,15), (669745281,15), (669688888,15), (669632497,15), (669576109,15), (669519722,15), (669463338,15), (669406956,15), (669350577,15), (669294200,15), (669237825,15), (669181452,15), (669125081,15),
    (669068713,15), (669012347,15), (668955983,15), (668899622,15), (668843263,15), (668786906,15), (668730551,15), (668674199,15), (668617848,15), (668561500,15), (668505155,15), (668448811,15), (668392470,15), (668336131,15), (668279794,15), (668223460,15),
    (668167128,15), (668110798,15), (668054470,15), (667998145,15), (667941822,15), (667885501,15), (667829182,15), (667772866,15), (667716552,15), (667660240,15), (667603930,15), (667547623,15), (667491318,15), (667435015,15), (667378714,15), (667322416,15),
    (667266120,15), (667209826,15), (667153534,15), (667097245,15), (667040958,15), (666984673,15), (666928390,15), (666872110,15), (666815832,15), (666759556,15), (666703282,15), (666647011,15), (666590742,15), (666534475,15), (666478210,15), (666421948,15),
    (666365688,15), (666309430,15), (666253174,15), (666196921,15), (666140670,15), (666084421,15), (666028174,15), (665971930,15), (665915688,15), (665859448,15), (665803210,15), (665746975,15), (665690742,15), (665634511,15), (665578282,15), (665522056,15),
    (665465832,15), (665409610,15), (665353390,15), (665297173,15), (665240958,15), (665184745,15), (665128534,15), (665072326,15), (665016120,15), (664959916,15), (664903714,15), (664847515,15), (664791318,15), (664735123,15), (664678930,15), (664622740,15),
    (664566551,15), (664510365,15), (664454182,15), (664398000,15), (664341821,15), (664285644,15), (664229469,15), (664173297,15), (664117127,15), (664060959,15), (664004793,15), (663948630,15), (663892468,15), (663836309,15), (663780152,15), (663723998,15),
    (663667846,15), (663611696,15), (663555548,15), (663499402,15), (663443259,15), (663387118,15), (663330979,15), (663274843,15), (663218708,15), (663162576,15), (663106446,15), (663050319,15), (662994193,15), (662938070,15), (662881949,15), (662825831,15),
    (662769714,15), (662713600,15), (662657488,15), (662601378,15), (662545271,15), (662489166,15), (662433063,15), (662376962,15), (662320864,15), (662264767,15), (662208673,15), (662152582,15), (662096492,15), (662040405,15), (661984320,15), (661928237,15),
    (661872156,15), (661816078,15), (661760002,15), (661703928,15), (661647857,15), (661591787,15), (661535720,15), (661479655,15), (661423593,15), (661367532,15), (661311474,15), (661255418,15), (661199364,15), (661143313,15), (661087264,15), (661031217,15),
    (660975172,15), (660919129,15), (660863089,15), (660807051,15), (660751015,15), (660694982,15), (660638950,15), (660582921,15), (660526894,15), (660470870,15), (660414847,15), (660358827,15), (660302809,15), (660246794,15), (660190780,15), (660134769,15),
    (660078760,15), (660022753,15), (659966749,15), (659910746,15), (659854746,15), (659798748,15), (659742753,15), (659686760,15), (659630768,15), (659574780,15), (659518793,15), (659462808,15), (659406826,15), (659350846,15), (659294869,15), (659238893,15),
    (659182920,15), (659126949,15), (659070980,15), (659015014,15), (658959049,15), (658903087,15), (658847127,15), (658791170,15), (658735214,15), (658679261,15), (658623310,15), (658567361,15), (658511415,15), (658455471,15), (658399529,15), (658343589,15),
    (658287651,15), (658231716,15), (658175783,15), (658119852,15), (658063924,15), (658007997,15), (657952073,15), (657896151,15), (657840231,15), (657784314,15), (657728399,15), (657672486,15), (657616575,15), (657560666,15), (657504760,15), (657448856,15),
    (657392954,15), (657337054,15), (657281157,15), (657225262,15), (657169369,15), (657113478,15), (657057590,15), (657001703,15), (656945819,15), (656889937,15), (656834058,15), (656778180,15), (656722305,15), (656666432,15), (656610562,15), (656554693,15),
    (656498827,15), (656442963,15), (656387101,15), (656331242,15), (656275384,15), (656219529,15), (656163676,15), (656107826,15), (656051977,15), (655996131,15), (655940287,15), (655884445,15), (655828606,15), (655772768,15), (655716933,15), (655661100,15),
    (655605270,15), (655549441,15), (655493615,15), (655437791,15), (655381969,15), (655326150,15), (655270333,15), (655214517,15), (655158705,15), (655102894,15), (655047086,15), (654991279,15), (654935475,15), (654879674,15), (654823874,15), (654768077,15),
    (654712282,15), (654656489,15), (654600698,15), (654544910,15), (654489124,15), (654433340,15), (654377558,15), (654321779,15), (654266001,15), (654210226,15), (654154453,15), (654098683,15), (654042914,15), (653987148,15), (653931384,15), (653875622,15),
    (653819863,15), (653764105,15), (653708350,15), (653652597,15), (653596847,15), (653541098,15), (653485352,15), (653429608,15), (653373866,15), (653318127,15), (653262389,15), (653206654,15), (653150921,15), (653095191,15), (653039462,15), (652983736,15),
    (652928012,15), (652872290,15), (652816570,15), (652760853,15), (652705138,15), (652649425,15), (652593714,15), (652538006,15), (652482299,15), (652426595,15), (652370893,15), (652315194,15), (652259496,15), (652203801,15), (652148108,15), (652092417,15),
    (652036729,15), (651981042,15), (651925358,15), (651869676,15), (651813997,15), (651758319,15), (651702644,15), (651646971,15), (651591300,15), (651535631,15), (651479965,15), (651424301,15), (651368639,15), (651312979,15), (651257321,15), (651201666,15),
    (651146013,15), (651090362,15), (651034713,15), (650979067,15), (650923422,15), (650867780,15), (650812140,15), (650756503,15), (650700867,15), (650645234,15), (650589603,15), (650533974,15), (650478348,15), (650422723,15), (650367101,15), (650311481,15),
    (650255863,15), (650200248,15), (650144635,15), (650089023,15), (650033415,15), (649977808,15), (649922203,15), (649866601,15), (649811001,15), (649755403,15), (649699808,15), (649644214,15), (649588623,15), (649533034,15), (649477447,15), (649421862,15),
    (649366280,15), (649310700,15), (649255122,15), (649199546,15), (649143973,15), (649088401,15), (649032832,15), (648977265,15), (648921701,15), (648866138,15), (648810578,15), (648755020,15), (648699464,15), (648643910,15), (648588359,15), (648532809,15),
    (648477262,15), (648421717,15), (648366175,15), (648310634,15), (648255096,15), (648199560,15), (648144026,15), (648088495,15), (648032965,15), (647977438,15), (647921913,15), (647866390,15), (647810870,15), (647755351,15), (647699835,15), (647644321,15),
    (647588810,15), (647533300,15), (647477793,15), (647422287,15), (647366785,15), (647311284,15), (647255785,15), (647200289,15), (647144795,15), (647089303,15), (647033813,15), (646978326,15), (646922840,15), (646867357,15), (646811876,15), (646756398,15),
    (646700921,15), (646645447,15), (646589975,15), (646534505,15), (646479037,15), (646423572,15), (646368108,15), (646312647,15), (646257189,15), (646201732,15), (646146277,15), (646090825,15), (646035375,15), (645979927,15), (645924482,15), (645869038,15),
    (645813597,15), (645758158,15), (645702721,15), (645647286,15), (645591854,15), (645536423,15), (645480995,15), (645425570,15), (645370146,15), (645314724,15), (645259305,15), (645203888,15), (645148473,15), (645093061,15), (645037650,15), (644982242,15),
    (644926836,15), (644871432,15), (644816030,15), (644760631,15), (644705233,15), (644649838,15), (644594445,15), (644539055,15), (644483666,15), (644428280,15), (644372896,15), (644317514,15), (644262134,15), (644206757,15), (644151382,15), (644096008,15),
    (644040638,15), (643985269,15), (643929902,15), (643874538,15), (643819176,15), (643763816,15), (643708458,15), (643653103,15), (643597749,15), (643542398,15), (643487049,15), (643431703,15), (643376358,15), (643321016,15), (643265675,15), (643210337,15),
    (643155002,15), (643099668,15), (643044337,15), (642989008,15), (642933681,15), (642878356,15), (642823033,15), (642767713,15), (642712394,15), (642657078,15), (642601765,15), (642546453,15), (642491143,15), (642435836,15), (642380531,15), (642325228,15),
    (642269928,15), (642214629,15), (642159333,15), (642104039,15), (642048747,15), (641993457,15), (641938170,15), (641882884,15), (641827601,15), (641772320,15), (641717041,15), (641661765,15), (641606490,15), (641551218,15), (641495948,15), (641440680,15),
    (641385415,15), (641330151,15), (641274890,15), (641219631,15), (641164374,15), (641109119,15), (641053867,15), (640998617,15), (640943369,15), (640888123,15), (640832879,15), (640777637,15), (640722398,15), (640667161,15), (640611926,15), (640556693,15),
    (640501463,15), (640446234,15), (640391008,15), (640335784,15), (640280562,15), (640225342,15), (640170125,15), (640114910,15), (640059697,15), (640004486,15), (639949277,15), (639894070,15), (639838866,15), (639783664,15), (639728464,15), (639673266,15),
    (639618071,15), (639562877,15), (639507686,15), (639452497,15), (639397310,15), (639342125,15), (639286943,15), (639231763,15), (639176584,15), (639121409,15), (639066235,15), (639011063,15), (638955894,15), (638900727,15), (638845562,15), (638790399,15),
    (638735238,15), (638680080,15), (638624923,15), (638569769,15), (638514618,15), (638459468,15), (638404320,15), (638349175,15), (638294032,15), (638238891,15), (638183752,15), (638128615,15), (638073481,15), (638018349,15), (637963219,15), (637908091,15),
    (637852965,15), (637797841,15), (637742720,15), (637687601,15), (637632484,15), (637577369,15), (637522257,15), (637467146,15), (637412038,15), (637356932,15), (637301828,15), (637246726,15), (637191627,15), (637136529,15), (637081434,15), (637026341,15),
    (636971250,15), (636916162,15), (636861075,15), (636805991,15), (636750909,15), (636695829,15), (636640751,15), (636585676,15), (636530602,15), (636475531,15), (636420462,15), (636365395,15), (636310331,15), (636255268,15), (636200208,15), (636145150,15),
    (636090094,15), (636035040,15), (635979988,15), (635924939,15), (635869892,15), (635814847,15), (635759804,15), (635704763,15), (635649725,15), (635594688,15), (635539654,15), (635484622,15), (635429592,15), (635374564,15), (635319539,15), (635264516,15),
    (635209495,15), (635154476,15), (635099459,15), (635044444,15), (634989432,15), (634934422,15), (634879414,15), (634824408,15), (634769404,15), (634714402,15), (634659403,15), (634604406,15), (634549411,15), (634494418,15), (634439427,15), (634384439,15),
    (634329453,15), (634274468,15), (634219486,15), (634164507,15), (634109529,15), (634054553,15), (633999580,15), (633944609,15), (633889640,15), (633834673,15), (633779709,15), (633724746,15), (633669786,15), (633614828,15), (633559872,15), (633504918,15),
    (633449967,15), (633395017,15), (633340070,15), (633285125,15), (633230182,15), (633175242,15), (633120303,15), (633065367,15), (633010433,15), (632955501,15), (632900571,15), (632845643,15), (632790717,15), (632735794,15), (632680873,15), (632625954,15),
    (632571037,15), (632516122,15), (632461210,15), (632406300,15), (632351392,15), (632296486,15), (632241582,15), (632186680,15), (632131781,15), (632076883,15), (632021988,15), (631967095,15), (631912204,15), (631857316,15), (631802429,15), (631747545,15),
    (631692663,15), (631637783,15), (631582905,15), (631528029,15), (631473156,15), (631418285,15), (631363416,15), (631308549,15), (631253684,15), (631198821,15), (631143961,15), (631089102,15), (631034246,15), (630979392,15), (630924541,15), (630869691,15),
    (630814843,15), (630759998,15), (630705155,15), (630650314,15), (630595475,15), (630540639,15), (630485804,15), (630430972,15), (630376142,15), (630321314,15), (630266488,15), (630211664,15), (630156843,15), (630102023,15), (630047206,15), (629992391,15),
    (629937578,15), (629882768,15), (629827959,15), (629773153,15), (629718349,15), (629663547,15), (629608747,15), (629553949,15), (629499154,15), (629444360,15), (629389569,15), (629334780,15), (629279993,15), (629225208,15), (629170426,15), (629115645,15),
    (629060867,15), (629006091,15), (628951317,15), (628896545,15), (628841776,15), (628787008,15), (628732243,15), (628677480,15), (628622719,15), (628567960,15), (628513204,15), (628458449,15), (628403697,15), (628348947,15), (628294199,15), (628239453,15),
    (628184709,15), (628129968,15), (628075228,15), (628020491,15), (627965756,15), (627911023,15), (627856292,15), (627801564,15), (627746838,15), (627692113,15), (627637391,15), (627582671,15), (627527953,15), (627473238,15), (627418524,15), (627363813,15),
    (627309104,15), (627254397,15), (627199692,15), (627144990,15), (627090289,15), (627035591,15), (626980894,15), (626926200,15), (626871509,15), (626816819,15), (626762131,15), (626707446,15), (626652763,15), (626598081,15), (626543403,15), (626488726,15),
    (626434051,15), (626379379,15), (626324708,15), (626270040,15), (626215374,15), (626160710,15), (626106049,15), (626051389,15), (625996732,15), (625942076,15), (625887423,15), (625832772,15), (625778124,15), (625723477,15), (625668832,15), (625614190,15),
    (625559550,15), (625504912,15), (625450276,15), (625395642,15), (625341011,15), (625286381,15), (625231754,15), (625177129,15), (625122506,15), (625067885,15), (625013267,15), (624958650,15), (624904036,15), (624849424,15), (624794814,15), (624740206,15),
    (624685600,15), (624630996,15), (624576395,15), (624521796,15), (624467199,15), (624412604,15), (624358011,15), (624303420,15), (624248832,15), (624194245,15), (624139661,15), (624085079,15), (624030499,15), (623975921,15), (623921346,15), (623866772,15),
    (623812201,15), (623757632,15), (623703064,15), (623648500,15), (623593937,15), (623539376,15), (623484818,15), (623430262,15), (623375707,15), (623321155,15), (623266606,15), (623212058,15), (623157512,15), (623102969,15), (623048428,15), (622993889,15),
    (622939352,15), (622884817,15), (622830284,15), (622775754,15), (622721225,15), (622666699,15), (622612175,15), (622557653,15), (622503133,15), (622448616,15), (622394100,15), (622339587,15), (622285076,15), (622230566,15), (622176060,15), (622121555,15),
    (622067052,15), (622012552,15), (621958053,15), (621903557,15), (621849063,15), (621794571,15), (621740082,15), (621685594,15), (621631108,15), (621576625,15), (621522144,15), (621467665,15), (621413188,15), (621358713,15), (621304241,15), (621249770,15),
    (621195302,15), (621140836,15), (621086372,15), (621031910,15), (620977450,15), (620922992,15), (620868537,15), (620814084,15), (620759633,15), (620705183,15), (620650737,15), (620596292,15), (620541849,15), (620487409,15), (620432970,15), (620378534,15),
    (620324100,15), (620269668,15), (620215239,15), (620160811,15), (620106385,15), (620051962,15), (619997541,15), (619943122,15), (619888705,15), (619834290,15), (619779878,15), (619725467,15), (619671059,15), (619616652,15), (619562248,15), (619507846,15),
    (619453447,15), (619399049,15), (619344653,15), (619290260,15), (619235869,15), (619181480,15), (619127093,15), (619072708,15), (619018325,15), (618963945,15), (618909566,15), (618855190,15), (618800816,15), (618746444,15), (618692074,15), (618637706,15),
    (618583341,15), (618528977,15), (618474616,15), (618420257,15), (618365900,15), (618311545,15), (618257192,15), (618202841,15), (618148493,15), (618094146,15), (618039802,15), (617985460,15), (617931120,15), (617876782,15), (617822447,15), (617768113,15),
    (617713782,15), (617659452,15), (617605125,15), (617550800,15), (617496477,15), (617442157,15), (617387838,15), (617333522,15), (617279207,15), (617224895,15), (617170585,15), (617116277,15), (617061971,15), (617007667,15), (616953366,15), (616899067,15),
    (616844769,15), (616790474,15), (616736181,15), (616681890,15), (616627602,15), (616573315,15), (616519030,15), (616464748,15), (616410468,15), (616356190,15), (616301914,15), (616247640,15), (616193368,15), (616139099,15), (616084831,15), (616030566,15),
    (615976303,15), (615922042,15), (615867783,15), (615813526,15), (615759272,15), (615705019,15), (615650769,15), (615596520,15), (615542274,15), (615488030,15), (615433789,15), (615379549,15), (615325311,15), (615271076,15), (615216842,15), (615162611,15),
    (615108382,15), (615054155,15), (614999930,15), (614945708,15), (614891487,15), (614837269,15), (614783052,15), (614728838,15), (614674626,15), (614620416,15), (614566208,15), (614512003,15), (614457799,15), (614403598,15), (614349398,15), (614295201,15),
    (614241006,15), (614186813,15), (614132623,15), (614078434,15), (614024247,15), (613970063,15), (613915881,15), (613861701,15), (613807523,15), (613753347,15), (613699173,15), (613645001,15), (613590832,15), (613536664,15), (613482499,15), (613428336,15),
    (613374175,15), (613320016,15), (613265859,15), (613211705,15), (613157552,15), (613103402,15), (613049253,15), (612995107,15), (612940963,15), (612886821,15), (612832682,15), (612778544,15), (612724408,15), (612670275,15), (612616144,15), (612562015,15),
    (612507888,15), (612453763,15), (612399640,15), (612345519,15), (612291401,15), (612237284,15), (612183170,15), (612129058,15), (612074948,15), (612020840,15), (611966734,15), (611912630,15), (611858529,15), (611804429,15), (611750332,15), (611696237,15),
    (611642144,15), (611588053,15), (611533964,15), (611479877,15), (611425793,15), (611371710,15), (611317630,15), (611263551,15), (611209475,15), (611155401,15), (611101329,15), (611047260,15), (610993192,15), (610939127,15), (610885063,15), (610831002,15),
    (610776943,15), (610722886,15), (610668831,15), (610614778,15), (610560727,15), (610506679,15), (610452632,15), (610398588,15), (610344546,15), (610290506,15), (610236468,15), (610182432,15), (610128398,15), (610074366,15), (610020337,15), (609966310,15),
    (609912284,15), (609858261,15), (609804240,15), (609750221,15), (609696204,15), (609642190,15), (609588177,15), (609534167,15), (609480158,15), (609426152,15), (609372148,15), (609318146,15), (609264146,15), (609210148,15), (609156153,15), (609102159,15),
    (609048168,15), (608994178,15), (608940191,15), (608886206,15), (608832223,15), (608778242,15), (608724264,15), (608670287,15), (608616312,15), (608562340,15), (608508370,15), (608454402,15), (608400436,15), (608346472,15), (608292510,15), (608238550,15),
    (608184593,15), (608130637,15), (608076684,15), (608022732,15), (607968783,15), (607914836,15), (607860891,15), (607806949,15), (607753008,15), (607699069,15), (607645133,15), (607591198,15), (607537266,15), (607483336,15), (607429408,15), (607375482,15),
    (607321558,15), (607267637,15), (607213717,15), (607159800,15), (607105884,15), (607051971,15), (606998060,15), (606944151,15), (606890244,15), (606836339,15), (606782436,15), (606728536,15), (606674637,15), (606620741,15), (606566847,15), (606512955,15),
    (606459065,15), (606405177,15), (606351291,15), (606297407,15), (606243525,15), (606189646,15), (606135769,15), (606081893,15), (606028020,15), (605974149,15), (605920280,15), (605866413,15), (605812549,15), (605758686,15), (605704825,15), (605650967,15),
    (605597111,15), (605543256,15), (605489404,15), (605435554,15), (605381706,15), (605327861,15), (605274017,15), (605220175,15), (605166336,15), (605112499,15), (605058663,15), (605004830,15), (604950999,15), (604897170,15), (604843343,15), (604789519,15),
    (604735696,15), (604681876,15), (604628057,15), (604574241,15), (604520427,15), (604466615,15), (604412805,15), (604358997,15), (604305191,15), (604251387,15), (604197586,15), (604143786,15), (604089989,15), (604036194,15), (603982401,15), (603928609,15),
    (603874821,15), (603821034,15), (603767249,15), (603713466,15), (603659686,15), (603605907,15), (603552131,15), (603498357,15), (603444585,15), (603390815,15), (603337047,15), (603283281,15), (603229517,15), (603175756,15), (603121996,15), (603068239,15),
    (603014483,15), (602960730,15), (602906979,15), (602853230,15), (602799483,15), (602745738,15), (602691996,15), (602638255,15), (602584516,15), (602530780,15), (602477046,15), (602423313,15), (602369583,15), (602315855,15), (602262129,15), (602208406,15),
    (602154684,15), (602100964,15), (602047247,15), (601993531,15), (601939818,15), (601886107,15), (601832398,15), (601778691,15), (601724986,15), (601671283,15), (601617582,15), (601563884,15), (601510187,15), (601456493,15), (601402800,15), (601349110,15),
    (601295422,15), (601241736,15), (601188052,15), (601134370,15), (601080690,15), (601027013,15), (600973337,15), (600919664,15), (600865992,15), (600812323,15), (600758656,15), (600704991,15), (600651328,15), (600597667,15), (600544008,15), (600490351,15),
    (600436697,15), (600383044,15), (600329394,15), (600275746,15), (600222099,15), (600168455,15), (600114813,15), (600061173,15), (600007535,15), (599953900,15), (599900266,15), (599846634,15), (599793005,15), (599739378,15), (599685752,15), (599632129,15),
    (599578508,15), (599524889,15), (599471272,15), (599417657,15), (599364045,15), (599310434,15), (599256825,15), (599203219,15), (599149615,15), (599096012,15), (599042412,15), (598988814,15), (598935218,15), (598881624,15), (598828033,15), (598774443,15),
    (598720855,15), (598667270,15), (598613686,15), (598560105,15), (598506526,15), (598452949,15), (598399373,15), (598345800,15), (598292230,15), (598238661,15), (598185094,15), (598131529,15), (598077967,15), (598024406,15), (597970848,15), (597917292,15),
    (597863738,15), (597810186,15), (597756636,15), (597703088,15), (597649542,15), (597595998,15), (597542457,15), (597488917,15), (597435380,15), (597381844,15), (597328311,15), (597274780,15), (597221251,15), (597167724,15), (597114199,15), (597060676,15),
    (597007155,15), (596953636,15), (596900120,15), (596846605,15), (596793093,15), (596739583,15), (596686074,15), (596632568,15), (596579064,15), (596525562,15), (596472062,15), (596418564,15), (596365069,15), (596311575,15), (596258084,15), (596204594,15),
    (596151107,15), (596097621,15), (596044138,15), (595990657,15), (595937178,15), (595883701,15), (595830226,15), (595776754,15), (595723283,15), (595669814,15), (595616348,15), (595562883,15), (595509421,15), (595455961,15), (595402502,15), (595349046,15),
    (595295592,15), (595242140,15), (595188691,15), (595135243,15), (595081797,15), (595028354,15), (594974912,15), (594921473,15), (594868035,15), (594814600,15), (594761167,15), (594707736,15), (594654307,15), (594600880,15), (594547455,15), (594494032,15),
    (594440611,15), (594387193,15), (594333776,15), (594280362,15), (594226949,15), (594173539,15), (594120131,15), (594066725,15), (594013321,15), (593959919,15), (593906519,15), (593853121,15), (593799725,15), (593746332,15), (593692940,15), (593639551,15),
    (593586163,15), (593532778,15), (593479395,15), (593426013,15), (593372634,15), (593319257,15), (593265882,15), (593212509,15), (593159139,15), (593105770,15), (593052403,15), (592999039,15), (592945676,15), (592892316,15), (592838958,15), (592785601,15),
    (592732247,15), (592678895,15), (592625545,15), (592572197,15), (592518851,15), (592465508,15), (592412166,15), (592358826,15), (592305489,15), (592252153,15), (592198820,15), (592145489,15), (592092159,15), (592038832,15), (591985507,15), (591932184,15),
    (591878863,15), (591825544,15), (591772228,15), (591718913,15), (591665600,15), (591612290,15), (591558981,15), (591505675,15), (591452371,15), (591399068,15), (591345768,15), (591292470,15), (591239174,15), (591185880,15), (591132588,15), (591079298,15),
    (591026011,15), (590972725,15), (590919441,15), (590866160,15), (590812881,15), (590759603,15), (590706328,15), (590653055,15), (590599784,15), (590546514,15), (590493247,15), (590439983,15), (590386720,15), (590333459,15), (590280200,15), (590226944,15),
    (590173689,15), (590120437,15), (590067186,15), (590013938,15), (589960691,15), (589907447,15), (589854205,15), (589800965,15), (589747727,15), (589694491,15), (589641257,15), (589588026,15), (589534796,15), (589481568,15), (589428343,15), (589375119,15),
    (589321898,15), (589268678,15), (589215461,15), (589162246,15), (589109033,15), (589055822,15), (589002613,15), (588949406,15), (588896201,15), (588842998,15), (588789797,15), (588736599,15), (588683402,15), (588630207,15), (588577015,15), (588523825,15),
    (588470636,15), (588417450,15), (588364266,15), (588311084,15), (588257904,15), (588204726,15), (588151550,15), (588098376,15), (588045204,15), (587992034,15), (587938867,15), (587885701,15), (587832538,15), (587779376,15), (587726217,15), (587673059,15),
    (587619904,15), (587566751,15), (587513600,15), (587460451,15), (587407304,15), (587354159,15), (587301016,15), (587247875,15), (587194737,15), (587141600,15), (587088465,15), (587035333,15), (586982202,15), (586929074,15), (586875948,15), (586822823,15),
    (586769701,15), (586716581,15), (586663463,15), (586610347,15), (586557233,15), (586504121,15), (586451011,15), (586397903,15), (586344798,15), (586291694,15), (586238592,15), (586185493,15), (586132395,15), (586079300,15), (586026207,15), (585973115,15),
    (585920026,15), (585866939,15), (585813854,15), (585760771,15), (585707690,15), (585654611,15), (585601534,15), (585548460,15), (585495387,15), (585442316,15), (585389248,15), (585336181,15), (585283117,15), (585230054,15), (585176994,15), (585123936,15),
    (585070879,15), (585017825,15), (584964773,15), (584911723,15), (584858675,15), (584805629,15), (584752585,15), (584699544,15), (584646504,15), (584593466,15), (584540431,15), (584487397,15), (584434365,15), (584381336,15), (584328309,15), (584275283,15),
    (584222260,15), (584169239,15), (584116220,15), (584063203,15), (584010188,15), (583957175,15), (583904164,15), (583851155,15), (583798148,15), (583745143,15), (583692140,15), (583639140,15), (583586141,15), (583533145,15), (583480150,15), (583427158,15),
    (583374168,15), (583321179,15), (583268193,15), (583215209,15), (583162227,15), (583109247,15), (583056269,15), (583003293,15), (582950319,15), (582897347,15), (582844377,15), (582791409,15), (582738444,15), (582685480,15), (582632518,15), (582579559,15),
    (582526601,15), (582473646,15), (582420693,15), (582367741,15), (582314792,15), (582261845,15), (582208900,15), (582155957,15), (582103016,15), (582050077,15), (581997140,15), (581944205,15), (581891272,15), (581838341,15), (581785413,15), (581732486,15),
    (581679561,15), (581626639,15), (581573718,15), (581520800,15), (581467883,15), (581414969,15), (581362057,15), (581309147,15), (581256238,15), (581203332,15), (581150428,15), (581097526,15), (581044626,15), (580991728,15), (580938832,15), (580885939,15),
    (580833047,15), (580780157,15), (580727269,15), (580674384,15), (580621500,15), (580568619,15), (580515739,15), (580462862,15), (580409986,15), (580357113,15), (580304242,15), (580251372,15), (580198505,15), (580145640,15), (580092777,15), (580039916,15),
    (579987057,15), (579934200,15), (579881345,15), (579828492,15), (579775642,15), (579722793,15), (579669946,15), (579617102,15), (579564259,15), (579511418,15), (579458580,15), (579405743,15), (579352909,15), (579300077,15), (579247246,15), (579194418,15),
    (579141592,15), (579088768,15), (579035946,15), (578983125,15), (578930307,15), (578877491,15), (578824678,15), (578771866,15), (578719056,15), (578666248,15), (578613442,15), (578560639,15), (578507837,15), (578455037,15), (578402240,15), (578349444,15),
    (578296651,15), (578243859,15), (578191070,15), (578138282,15), (578085497,15), (578032714,15), (577979933,15), (577927154,15), (577874376,15), (577821601,15), (577768828,15), (577716057,15), (577663288,15), (577610521,15), (577557757,15), (577504994,15),
    (577452233,15), (577399474,15), (577346718,15), (577293963,15), (577241210,15), (577188460,15), (577135711,15), (577082965,15), (577030220,15), (576977478,15), (576924738,15), (576871999,15), (576819263,15), (576766529,15), (576713797,15), (576661066,15),
    (576608338,15), (576555612,15), (576502888,15), (576450166,15), (576397446,15), (576344728,15), (576292013,15), (576239299,15), (576186587,15), (576133877,15), (576081170,15), (576028464,15), (575975760,15), (575923059,15), (575870359,15), (575817662,15),
    (575764966,15), (575712273,15), (575659581,15), (575606892,15), (575554205,15), (575501519,15), (575448836,15), (575396155,15), (575343476,15), (575290799,15), (575238124,15), (575185451,15), (575132780,15), (575080111,15), (575027444,15), (574974779,15),
    (574922116,15), (574869455,15), (574816797,15), (574764140,15), (574711485,15), (574658832,15), (574606182,15), (574553533,15), (574500887,15), (574448242,15), (574395600,15), (574342959,15), (574290321,15), (574237684,15), (574185050,15), (574132418,15),
    (574079788,15), (574027159,15), (573974533,15), (573921909,15), (573869287,15), (573816667,15), (573764049,15), (573711433,15), (573658819,15), (573606207,15), (573553597,15), (573500989,15), (573448383,15), (573395779,15), (573343178,15), (573290578,15),
    (573237980,15), (573185384,15), (573132791,15), (573080199,15), (573027610,15), (572975022,15), (572922437,15), (572869853,15), (572817272,15), (572764692,15), (572712115,15), (572659540,15), (572606966,15), (572554395,15), (572501826,15), (572449259,15),
    (572396693,15), (572344130,15), (572291569,15), (572239010,15), (572186453,15), (572133898,15), (572081345,15), (572028794,15), (571976245,15), (571923698,15), (571871153,15), (571818610,15), (571766070,15), (571713531,15), (571660994,15), (571608459,15),
    (571555927,15), (571503396,15), (571450867,15), (571398341,15), (571345816,15), (571293294,15), (571240773,15), (571188255,15), (571135738,15), (571083224,15), (571030711,15), (570978201,15), (570925693,15), (570873186,15), (570820682,15), (570768180,15),
    (570715680,15), (570663181,15), (570610685,15), (570558191,15), (570505699,15), (570453209,15), (570400721,15), (570348235,15), (570295751,15), (570243269,15), (570190789,15), (570138311,15), (570085835,15), (570033361,15), (569980889,15), (569928419,15),
    (569875952,15), (569823486,15), (569771022,15), (569718560,15), (569666101,15), (569613643,15), (569561187,15), (569508734,15), (569456282,15), (569403833,15), (569351385,15), (569298940,15), (569246496,15), (569194055,15), (569141615,15), (569089178,15),
    (569036742,15), (568984309,15), (568931878,15), (568879448,15), (568827021,15), (568774596,15), (568722172,15), (568669751,15), (568617332,15), (568564915,15), (568512500,15), (568460087,15), (568407675,15), (568355266,15), (568302859,15), (568250454,15),
    (568198051,15), (568145650,15), (568093251,15), (568040854,15), (567988459,15), (567936066,15), (567883676,15), (567831287,15), (567778900,15), (567726515,15), (567674132,15), (567621751,15), (567569373,15), (567516996,15), (567464621,15), (567412249,15),
    (567359878,15), (567307509,15), (567255143,15), (567202778,15), (567150415,15), (567098055,15), (567045696,15), (566993340,15), (566940985,15), (566888633,15), (566836282,15), (566783934,15), (566731587,15), (566679243,15), (566626900,15), (566574560,15),
    (566522222,15), (566469885,15), (566417551,15), (566365219,15), (566312888,15), (566260560,15), (566208234,15), (566155910,15), (566103587,15), (566051267,15), (565998949,15), (565946633,15), (565894319,15), (565842007,15), (565789697,15), (565737388,15),
    (565685082,15), (565632778,15), (565580476,15), (565528176,15), (565475878,15), (565423582,15), (565371288,15), (565318996,15), (565266706,15), (565214418,15), (565162132,15), (565109849,15), (565057567,15), (565005287,15), (564953009,15), (564900733,15),
    (564848459,15), (564796187,15), (564743918,15), (564691650,15), (564639384,15), (564587120,15), (564534859,15), (564482599,15), (564430341,15), (564378085,15), (564325832,15), (564273580,15), (564221330,15), (564169083,15), (564116837,15), (564064594,15),
    (564012352,15), (563960112,15), (563907875,15), (563855639,15), (563803406,15), (563751174,15), (563698945,15), (563646717,15), (563594492,15), (563542268,15), (563490047,15), (563437827,15), (563385610,15), (563333394,15), (563281181,15), (563228969,15),
    (563176760,15), (563124553,15), (563072347,15), (563020144,15), (562967942,15), (562915743,15), (562863546,15), (562811350,15), (562759157,15), (562706966,15), (562654776,15), (562602589,15), (562550404,15), (562498221,15), (562446039,15), (562393860,15),
    (562341683,15), (562289508,15), (562237334,15), (562185163,15), (562132994,15), (562080827,15), (562028662,15), (561976498,15), (561924337,15), (561872178,15), (561820021,15), (561767866,15), (561715713,15), (561663561,15), (561611412,15), (561559265,15),
    (561507120,15), (561454977,15), (561402836,15), (561350697,15), (561298560,15), (561246425,15), (561194292,15), (561142160,15), (561090031,15), (561037904,15), (560985779,15), (560933656,15), (560881535,15), (560829416,15), (560777299,15), (560725184,15),
    (560673071,15), (560620960,15), (560568851,15), (560516744,15), (560464639,15), (560412536,15), (560360435,15), (560308336,15), (560256239,15), (560204144,15), (560152051,15), (560099960,15), (560047871,15), (559995785,15), (559943700,15), (559891617,15),
    (559839536,15), (559787457,15), (559735380,15), (559683305,15), (559631232,15), (559579161,15), (559527092,15), (559475025,15), (559422960,15), (559370897,15), (559318837,15), (559266778,15), (559214721,15), (559162666,15), (559110613,15), (559058562,15),
    (559006513,15), (558954466,15), (558902421,15), (558850379,15), (558798338,15), (558746299,15), (558694262,15), (558642227,15), (558590194,15), (558538163,15), (558486134,15), (558434108,15), (558382083,15), (558330060,15), (558278039,15), (558226020,15),
    (558174003,15), (558121988,15), (558069975,15), (558017965,15), (557965956,15), (557913949,15), (557861944,15), (557809941,15), (557757940,15), (557705941,15), (557653944,15), (557601950,15), (557549957,15), (557497966,15), (557445977,15), (557393990,15),
    (557342005,15), (557290022,15), (557238041,15), (557186062,15), (557134086,15), (557082111,15), (557030138,15), (556978167,15), (556926198,15), (556874231,15), (556822266,15), (556770303,15), (556718342,15), (556666383,15), (556614426,15), (556562471,15),
    (556510519,15), (556458568,15), (556406619,15), (556354672,15), (556302727,15), (556250784,15), (556198843,15), (556146904,15), (556094967,15), (556043032,15), (555991099,15), (555939168,15), (555887239,15), (555835312,15), (555783387,15), (555731464,15),
    (555679543,15), (555627624,15), (555575707,15), (555523792,15), (555471879,15), (555419968,15), (555368059,15), (555316152,15), (555264247,15), (555212344,15), (555160443,15), (555108544,15), (555056647,15), (555004752,15), (554952858,15), (554900967,15),
    (554849078,15), (554797191,15), (554745306,15), (554693423,15), (554641542,15), (554589663,15), (554537785,15), (554485910,15), (554434037,15), (554382166,15), (554330297,15), (554278430,15), (554226564,15), (554174701,15), (554122840,15), (554070981,15),
    (554019123,15), (553967268,15), (553915415,15), (553863564,15), (553811714,15), (553759867,15), (553708022,15), (553656179,15), (553604337,15), (553552498,15), (553500661,15), (553448825,15), (553396992,15), (553345160,15), (553293331,15), (553241504,15),
    (553189678,15), (553137855,15), (553086033,15), (553034214,15), (552982397,15), (552930581,15), (552878768,15), (552826956,15), (552775147,15), (552723339,15), (552671534,15), (552619730,15), (552567929,15), (552516129,15), (552464332,15), (552412536,15),
    (552360742,15), (552308951,15), (552257161,15), (552205374,15), (552153588,15), (552101804,15), (552050023,15), (551998243,15), (551946465,15), (551894689,15), (551842916,15), (551791144,15), (551739374,15), (551687607,15), (551635841,15), (551584077,15),
    (551532315,15), (551480555,15), (551428797,15), (551377042,15), (551325288,15), (551273536,15), (551221786,15), (551170038,15), (551118292,15), (551066548,15), (551014806,15), (550963066,15), (550911328,15), (550859592,15), (550807858,15), (550756126,15),
    (550704396,15), (550652668,15), (550600942,15), (550549218,15), (550497496,15), (550445776,15), (550394057,15), (550342341,15), (550290627,15), (550238915,15), (550187205,15), (550135496,15), (550083790,15), (550032086,15), (549980384,15), (549928683,15),
    (549876985,15), (549825289,15), (549773594,15), (549721902,15), (549670211,15), (549618523,15), (549566836,15), (549515152,15), (549463470,15), (549411789,15), (549360111,15), (549308434,15), (549256759,15), (549205087,15), (549153416,15), (549101748,15),
    (549050081,15), (548998416,15), (548946754,15), (548895093,15), (548843434,15), (548791777,15), (548740123,15), (548688470,15), (548636819,15), (548585170,15), (548533523,15), (548481879,15), (548430236,15), (548378595,15), (548326956,15), (548275319,15),
    (548223684,15), (548172051,15), (548120420,15), (548068791,15), (548017164,15), (547965539,15), (547913916,15), (547862294,15), (547810675,15), (547759058,15), (547707443,15), (547655830,15), (547604218,15), (547552609,15), (547501002,15), (547449396,15),
    (547397793,15), (547346192,15), (547294592,15), (547242995,15), (547191400,15), (547139806,15), (547088215,15), (547036625,15), (546985038,15), (546933452,15), (546881868,15), (546830287,15), (546778707,15), (546727129,15), (546675554,15), (546623980,15),
    (546572408,15), (546520839,15), (546469271,15), (546417705,15), (546366141,15), (546314579,15), (546263019,15), (546211461,15), (546159905,15), (546108351,15), (546056799,15), (546005249,15), (545953701,15), (545902155,15), (545850611,15), (545799069,15),
    (545747529,15), (545695991,15), (545644455,15), (545592920,15), (545541388,15), (545489858,15), (545438329,15), (545386803,15), (545335279,15), (545283756,15), (545232236,15), (545180717,15), (545129201,15), (545077686,15), (545026174,15), (544974663,15),
    (544923155,15), (544871648,15), (544820143,15), (544768641,15), (544717140,15), (544665641,15), (544614144,15), (544562649,15), (544511157,15), (544459666,15), (544408177,15), (544356690,15), (544305205,15), (544253722,15), (544202241,15), (544150762,15),
    (544099285,15), (544047810,15), (543996336,15), (543944865,15), (543893396,15), (543841929,15), (543790463,15), (543739000,15), (543687539,15), (543636079,15), (543584622,15), (543533166,15), (543481713,15), (543430262,15), (543378812,15), (543327364,15),
    (543275919,15), (543224475,15), (543173033,15), (543121594,15), (543070156,15), (543018720,15), (542967286,15), (542915855,15), (542864425,15), (542812997,15), (542761571,15), (542710147,15), (542658725,15), (542607305,15), (542555887,15), (542504471,15),
    (542453057,15), (542401644,15), (542350234,15), (542298826,15), (542247420,15), (542196015,15), (542144613,15), (542093213,15), (542041814,15), (541990418,15), (541939023,15), (541887631,15), (541836240,15), (541784851,15), (541733465,15), (541682080,15),
    (541630697,15), (541579317,15), (541527938,15), (541476561,15), (541425186,15), (541373813,15), (541322442,15), (541271073,15), (541219706,15), (541168341,15), (541116978,15), (541065617,15), (541014258,15), (540962901,15), (540911546,15), (540860192,15),
    (540808841,15), (540757492,15), (540706144,15), (540654799,15), (540603455,15), (540552114,15), (540500774,15), (540449437,15), (540398101,15), (540346767,15), (540295436,15), (540244106,15), (540192778,15), (540141452,15), (540090129,15), (540038807,15),
    (539987487,15), (539936169,15), (539884853,15), (539833539,15), (539782227,15), (539730916,15), (539679608,15), (539628302,15), (539576998,15), (539525695,15), (539474395,15), (539423097,15), (539371800,15), (539320506,15), (539269213,15), (539217923,15),
    (539166634,15), (539115348,15), (539064063,15), (539012780,15), (538961499,15), (538910221,15), (538858944,15), (538807669,15), (538756396,15), (538705125,15), (538653856,15), (538602589,15), (538551324,15), (538500061,15), (538448799,15), (538397540,15),
    (538346283,15), (538295028,15), (538243774,15), (538192523,15), (538141273,15), (538090026,15), (538038780,15), (537987537,15), (537936295,15), (537885055,15), (537833818,15), (537782582,15), (537731348,15), (537680116,15), (537628886,15), (537577659,15),
    (537526433,15), (537475209,15), (537423986,15), (537372766,15), (537321548,15), (537270332,15), (537219118,15), (537167905,15), (537116695,15), (537065487,15), (537014280,15), (536963076,15), (536911873,15), (536860673,15), (536809474,15), (536758277,15),
    (536707082,15), (536655890,15), (536604699,15), (536553510,15), (536502323,15), (536451138,15), (536399955,15), (536348774,15), (536297595,15), (536246418,15), (536195243,15), (536144069,15), (536092898,15), (536041729,15), (535990561,15), (535939396,15),
    (535888232,15), (535837071,15), (535785911,15), (535734754,15), (535683598,15), (535632444,15), (535581292,15), (535530143,15), (535478995,15), (535427849,15), (535376705,15), (535325563,15), (535274423,15), (535223284,15), (535172148,15), (535121014,15),
    (535069882,15), (535018751,15), (534967623,15), (534916497,15), (534865372,15), (534814249,15), (534763129,15), (534712010,15), (534660893,15), (534609779,15), (534558666,15), (534507555,15), (534456446,15), (534405339,15), (534354234,15), (534303131,15),
    (534252030,15), (534200931,15), (534149834,15), (534098738,15), (534047645,15), (533996554,15), (533945464,15), (533894377,15), (533843291,15), (533792208,15), (533741126,15), (533690046,15), (533638968,15), (533587893,15), (533536819,15), (533485747,15),
    (533434677,15), (533383609,15), (533332543,15), (533281479,15), (533230416,15), (533179356,15), (533128298,15), (533077242,15), (533026187,15), (532975135,15), (532924084,15), (532873036,15), (532821989,15), (532770944,15), (532719901,15), (532668861,15),
    (532617822,15), (532566785,15), (532515750,15), (532464717,15), (532413686,15), (532362657,15), (532311629,15), (532260604,15), (532209581,15), (532158560,15), (532107540,15), (532056523,15), (532005507,15), (531954493,15), (531903482,15), (531852472,15),
    (531801464,15), (531750459,15), (531699455,15), (531648453,15), (531597453,15), (531546455,15), (531495459,15), (531444464,15), (531393472,15), (531342482,15), (531291493,15), (531240507,15), (531189523,15), (531138540,15), (531087559,15), (531036581,15),
    (530985604,15), (530934629,15), (530883656,15), (530832686,15), (530781717,15), (530730750,15), (530679785,15), (530628821,15), (530577860,15), (530526901,15), (530475944,15), (530424988,15), (530374035,15), (530323083,15), (530272134,15), (530221186,15),
    (530170241,15), (530119297,15), (530068355,15), (530017415,15), (529966477,15), (529915541,15), (529864607,15), (529813675,15), (529762745,15), (529711817,15), (529660890,15), (529609966,15), (529559044,15), (529508123,15), (529457205,15), (529406288,15),
    (529355373,15), (529304461,15), (529253550,15), (529202641,15), (529151734,15), (529100829,15), (529049926,15), (528999025,15), (528948126,15), (528897228,15), (528846333,15), (528795440,15), (528744548,15), (528693659,15), (528642771,15), (528591885,15),
    (528541002,15), (528490120,15), (528439240,15), (528388362,15), (528337486,15), (528286612,15), (528235740,15), (528184870,15), (528134002,15), (528083136,15), (528032271,15), (527981409,15), (527930548,15), (527879690,15), (527828833,15), (527777978,15),
    (527727126,15), (527676275,15), (527625426,15), (527574579,15), (527523734,15), (527472891,15), (527422050,15), (527371211,15), (527320373,15), (527269538,15), (527218704,15), (527167873,15), (527117043,15), (527066216,15), (527015390,15), (526964566,15),
    (526913744,15), (526862925,15), (526812107,15), (526761291,15), (526710476,15), (526659664,15), (526608854,15), (526558046,15), (526507239,15), (526456435,15), (526405632,15), (526354832,15), (526304033,15), (526253236,15), (526202442,15), (526151649,15),
    (526100858,15), (526050069,15), (525999282,15), (525948496,15), (525897713,15), (525846932,15), (525796153,15), (525745375,15), (525694600,15), (525643826,15), (525593054,15), (525542285,15), (525491517,15), (525440751,15), (525389987,15), (525339225,15),
    (525288465,15), (525237707,15), (525186951,15), (525136196,15), (525085444,15), (525034693,15), (524983945,15), (524933198,15), (524882454,15), (524831711,15), (524780970,15), (524730231,15), (524679494,15), (524628759,15), (524578026,15), (524527295,15),
    (524476566,15), (524425838,15), (524375113,15), (524324390,15), (524273668,15), (524222948,15), (524172231,15), (524121515,15), (524070801,15), (524020089,15), (523969379,15), (523918671,15), (523867965,15), (523817261,15), (523766559,15), (523715858,15),
    (523665160,15), (523614463,15), (523563769,15), (523513076,15), (523462385,15), (523411696,15), (523361009,15), (523310325,15), (523259641,15), (523208960,15), (523158281,15), (523107604,15), (523056929,15), (523006255,15), (522955584,15), (522904914,15),
    (522854246,15), (522803581,15), (522752917,15), (522702255,15), (522651595,15), (522600937,15), (522550281,15), (522499626,15), (522448974,15), (522398324,15), (522347675,15), (522297029,15), (522246384,15), (522195742,15), (522145101,15), (522094462,15),
    (522043825,15), (521993190,15), (521942557,15), (521891926,15), (521841297,15), (521790669,15), (521740044,15), (521689420,15), (521638799,15), (521588179,15), (521537562,15), (521486946,15), (521436332,15), (521385720,15), (521335110,15), (521284502,15),
    (521233896,15), (521183291,15), (521132689,15), (521082089,15), (521031490,15), (520980893,15), (520930299,15), (520879706,15), (520829115,15), (520778526,15), (520727939,15), (520677354,15), (520626771,15), (520576190,15), (520525610,15), (520475033,15),
    (520424458,15), (520373884,15), (520323312,15), (520272743,15), (520222175,15), (520171609,15), (520121045,15), (520070483,15), (520019923,15), (519969364,15), (519918808,15), (519868254,15), (519817701,15), (519767150,15), (519716602,15), (519666055,15),
    (519615510,15), (519564967,15), (519514426,15), (519463887,15), (519413350,15), (519362815,15), (519312281,15), (519261750,15), (519211221,15), (519160693,15), (519110167,15), (519059643,15), (519009122,15), (518958602,15), (518908084,15), (518857568,15),
    (518807053,15), (518756541,15), (518706031,15), (518655522,15), (518605016,15), (518554511,15), (518504008,15), (518453508,15), (518403009,15), (518352512,15), (518302017,15), (518251524,15), (518201032,15), (518150543,15), (518100056,15), (518049570,15),
    (517999087,15), (517948605,15), (517898125,15), (517847647,15), (517797171,15), (517746697,15), (517696225,15), (517645755,15), (517595287,15), (517544820,15), (517494356,15), (517443893,15), (517393433,15), (517342974,15), (517292517,15), (517242062,15),
    (517191609,15), (517141158,15), (517090709,15), (517040262,15), (516989816,15), (516939373,15), (516888931,15), (516838492,15), (516788054,15), (516737618,15), (516687184,15), (516636752,15), (516586322,15), (516535894,15), (516485468,15), (516435043,15),
    (516384621,15), (516334200,15), (516283782,15), (516233365,15), (516182950,15), (516132537,15), (516082126,15), (516031717,15), (515981310,15), (515930905,15), (515880501,15), (515830100,15), (515779700,15), (515729303,15), (515678907,15), (515628513,15),
    (515578121,15), (515527731,15), (515477343,15), (515426957,15), (515376573,15), (515326190,15), (515275810,15), (515225431,15), (515175055,15), (515124680,15), (515074307,15), (515023936,15), (514973567,15), (514923200,15), (514872835,15), (514822471,15),
    (514772110,15), (514721750,15), (514671393,15), (514621037,15), (514570683,15), (514520331,15), (514469981,15), (514419633,15), (514369287,15), (514318943,15), (514268600,15), (514218260,15), (514167921,15), (514117585,15), (514067250,15), (514016917,15),
    (513966586,15), (513916257,15), (513865930,15), (513815605,15), (513765281,15), (513714960,15), (513664640,15), (513614323,15), (513564007,15), (513513693,15), (513463381,15), (513413071,15), (513362763,15), (513312457,15), (513262153,15), (513211850,15),
    (513161550,15), (513111251,15), (513060954,15), (513010660,15), (512960367,15), (512910076,15), (512859787,15), (512809499,15), (512759214,15), (512708931,15), (512658649,15), (512608370,15), (512558092,15), (512507816,15), (512457542,15), (512407270,15),
    (512357000,15), (512306732,15), (512256466,15), (512206201,15), (512155939,15), (512105678,15), (512055420,15), (512005163,15), (511954908,15), (511904655,15), (511854404,15), (511804155,15), (511753907,15), (511703662,15), (511653419,15), (511603177,15),
    (511552937,15), (511502699,15), (511452464,15), (511402229,15), (511351997,15), (511301767,15), (511251539,15), (511201312,15), (511151088,15), (511100865,15), (511050645,15), (511000426,15), (510950209,15), (510899994,15), (510849781,15), (510799569,15),
    (510749360,15), (510699153,15), (510648947,15), (510598743,15), (510548542,15), (510498342,15), (510448144,15), (510397948,15), (510347754,15), (510297561,15), (510247371,15), (510197183,15), (510146996,15), (510096811,15), (510046628,15), (509996448,15),
    (509946269,15), (509896091,15), (509845916,15), (509795743,15), (509745572,15), (509695402,15), (509645234,15), (509595069,15), (509544905,15), (509494743,15), (509444583,15), (509394425,15), (509344268,15), (509294114,15), (509243961,15), (509193811,15),
    (509143662,15), (509093515,15), (509043370,15), (508993227,15), (508943086,15), (508892947,15), (508842810,15), (508792674,15), (508742541,15), (508692409,15), (508642279,15), (508592151,15), (508542025,15), (508491901,15), (508441779,15), (508391659,15),
    (508341540,15), (508291424,15), (508241309,15), (508191196,15), (508141086,15), (508090977,15), (508040870,15), (507990764,15), (507940661,15), (507890560,15), (507840460,15), (507790363,15), (507740267,15), (507690173,15), (507640081,15), (507589991,15),
    (507539903,15), (507489817,15), (507439732,15), (507389650,15), (507339569,15), (507289490,15), (507239413,15), (507189339,15), (507139265,15), (507089194,15), (507039125,15), (506989058,15), (506938992,15), (506888929,15), (506838867,15), (506788807,15),
    (506738749,15), (506688693,15), (506638639,15), (506588587,15), (506538536,15), (506488488,15), (506438441,15), (506388396,15), (506338353,15), (506288313,15), (506238273,15), (506188236,15), (506138201,15), (506088168,15), (506038136,15), (505988106,15),
    (505938079,15), (505888053,15), (505838029,15), (505788007,15), (505737987,15), (505687968,15), (505637952,15), (505587937,15), (505537925,15), (505487914,15), (505437905,15), (505387898,15), (505337893,15), (505287890,15), (505237888,15), (505187889,15),
    (505137891,15), (505087895,15), (505037902,15), (504987910,15), (504937920,15), (504887932,15), (504837945,15), (504787961,15), (504737978,15), (504687998,15), (504638019,15), (504588042,15), (504538067,15), (504488094,15), (504438123,15), (504388154,15),
    (504338186,15), (504288221,15), (504238257,15), (504188295,15), (504138335,15), (504088377,15), (504038421,15), (503988467,15), (503938514,15), (503888564,15), (503838615,15), (503788669,15), (503738724,15), (503688781,15), (503638840,15), (503588900,15),
    (503538963,15), (503489028,15), (503439094,15), (503389162,15), (503339233,15), (503289305,15), (503239379,15), (503189455,15), (503139532,15), (503089612,15), (503039693,15), (502989777,15), (502939862,15), (502889949,15), (502840038,15), (502790129,15),
    (502740222,15), (502690316,15), (502640413,15), (502590511,15), (502540612,15), (502490714,15), (502440818,15), (502390924,15), (502341032,15), (502291141,15), (502241253,15), (502191366,15), (502141482,15), (502091599,15), (502041718,15), (501991839,15),
    (501941962,15), (501892086,15), (501842213,15), (501792341,15), (501742472,15), (501692604,15), (501642738,15), (501592874,15), (501543012,15), (501493152,15), (501443293,15), (501393437,15), (501343582,15), (501293729,15), (501243878,15), (501194029,15),
    (501144182,15), (501094337,15), (501044493,15), (500994652,15), (500944812,15), (500894975,15), (500845139,15), (500795305,15), (500745473,15), (500695642,15), (500645814,15), (500595987,15), (500546163,15), (500496340,15), (500446519,15), (500396700,15),
    (500346883,15), (500297068,15), (500247254,15), (500197443,15), (500147633,15), (500097825,15), (500048020,15), (499998216,15), (499948413,15), (499898613,15), (499848815,15), (499799018,15), (499749224,15), (499699431,15), (499649640,15), (499599851,15),
    (499550064,15), (499500278,15), (499450495,15), (499400713,15), (499350934,15), (499301156,15), (499251380,15), (499201606,15), (499151834,15), (499102064,15), (499052295,15), (499002529,15), (498952764,15), (498903001,15), (498853240,15), (498803481,15),
    (498753724,15), (498703968,15), (498654215,15), (498604463,15), (498554714,15), (498504966,15), (498455220,15), (498405476,15), (498355734,15), (498305993,15), (498256255,15), (498206518,15), (498156783,15), (498107050,15), (498057319,15), (498007590,15),
    (497957863,15), (497908138,15), (497858414,15), (497808692,15), (497758973,15), (497709255,15), (497659539,15), (497609824,15), (497560112,15), (497510402,15), (497460693,15), (497410986,15), (497361281,15), (497311578,15), (497261877,15), (497212178,15),
    (497162481,15), (497112785,15), (497063091,15), (497013400,15), (496963710,15), (496914022,15), (496864336,15), (496814651,15), (496764969,15), (496715288,15), (496665610,15), (496615933,15), (496566258,15), (496516585,15), (496466913,15), (496417244,15),
    (496367576,15), (496317911,15), (496268247,15), (496218585,15), (496168925,15), (496119267,15), (496069611,15), (496019956,15), (495970304,15), (495920653,15), (495871004,15), (495821357,15), (495771712,15), (495722069,15), (495672427,15), (495622788,15),
    (495573150,15), (495523514,15), (495473880,15), (495424248,15), (495374618,15), (495324990,15), (495275363,15), (495225739,15), (495176116,15), (495126495,15), (495076876,15), (495027259,15), (494977643,15), (494928030,15), (494878418,15), (494828809,15),
    (494779201,15), (494729595,15), (494679991,15), (494630388,15), (494580788,15), (494531190,15), (494481593,15), (494431998,15), (494382405,15), (494332814,15), (494283225,15), (494233637,15), (494184052,15), (494134468,15), (494084887,15), (494035307,15),
    (493985729,15), (493936152,15), (493886578,15), (493837006,15), (493787435,15), (493737866,15), (493688299,15), (493638734,15), (493589171,15), (493539610,15), (493490050,15), (493440493,15), (493390937,15), (493341383,15), (493291831,15), (493242281,15),
    (493192733,15), (493143186,15), (493093642,15), (493044099,15), (492994558,15), (492945019,15), (492895482,15), (492845947,15), (492796413,15), (492746882,15), (492697352,15), (492647824,15), (492598298,15), (492548774,15), (492499252,15), (492449731,15),
    (492400213,15), (492350696,15), (492301181,15), (492251668,15), (492202157,15), (492152648,15), (492103140,15), (492053635,15), (492004131,15), (491954629,15), (491905129,15), (491855631,15), (491806135,15), (491756640,15), (491707148,15), (491657657,15),
    (491608168,15), (491558681,15), (491509196,15), (491459713,15), (491410232,15), (491360752,15), (491311274,15), (491261798,15), (491212324,15), (491162852,15), (491113382,15), (491063913,15), (491014447,15), (490964982,15), (490915519,15), (490866058,15),
    (490816599,15), (490767142,15), (490717686,15), (490668233,15), (490618781,15), (490569331,15), (490519883,15), (490470437,15), (490420993,15), (490371550,15), (490322109,15), (490272671,15), (490223234,15), (490173799,15), (490124365,15), (490074934,15),
    (490025505,15), (489976077,15), (489926651,15), (489877227,15), (489827805,15), (489778385,15), (489728966,15), (489679550,15), (489630135,15), (489580722,15), (489531311,15), (489481902,15), (489432495,15), (489383090,15), (489333686,15), (489284284,15),
    (489234884,15), (489185486,15), (489136090,15), (489086696,15), (489037303,15), (488987913,15), (488938524,15), (488889137,15), (488839752,15), (488790369,15), (488740987,15), (488691608,15), (488642230,15), (488592854,15), (488543480,15), (488494108,15),
    (488444738,15), (488395370,15), (488346003,15), (488296638,15), (488247275,15), (488197914,15), (488148555,15), (488099198,15), (488049842,15), (488000489,15), (487951137,15), (487901787,15), (487852439,15), (487803093,15), (487753748,15), (487704406,15),
    (487655065,15), (487605726,15), (487556389,15), (487507054,15), (487457721,15), (487408389,15), (487359060,15), (487309732,15), (487260406,15), (487211082,15), (487161760,15), (487112439,15), (487063121,15), (487013804,15), (486964489,15), (486915176,15),
    (486865865,15), (486816556,15), (486767248,15), (486717943,15), (486668639,15), (486619337,15), (486570037,15), (486520739,15), (486471442,15), (486422148,15), (486372855,15), (486323564,15), (486274275,15), (486224988,15), (486175703,15), (486126419,15),
    (486077138,15), (486027858,15), (485978580,15), (485929304,15), (485880030,15), (485830757,15), (485781487,15), (485732218,15), (485682951,15), (485633686,15), (485584423,15), (485535161,15), (485485902,15), (485436644,15), (485387388,15), (485338134,15),
    (485288882,15), (485239632,15), (485190384,15), (485141137,15), (485091892,15), (485042649,15), (484993408,15), (484944169,15), (484894932,15), (484845696,15), (484796462,15), (484747231,15), (484698001,15), (484648772,15), (484599546,15), (484550321,15),
    (484501099,15), (484451878,15), (484402659,15), (484353442,15), (484304227,15), (484255013,15), (484205802,15), (484156592,15), (484107384,15), (484058178,15), (484008973,15), (483959771,15), (483910570,15), (483861372,15), (483812175,15), (483762980,15),
    (483713787,15), (483664595,15), (483615406,15), (483566218,15), (483517032,15), (483467848,15), (483418666,15), (483369486,15), (483320307,15), (483271130,15), (483221956,15), (483172783,15), (483123611,15), (483074442,15), (483025275,15), (482976109,15),
    (482926945,15), (482877783,15), (482828623,15), (482779465,15), (482730308,15), (482681154,15), (482632001,15), (482582850,15), (482533701,15), (482484554,15), (482435408,15), (482386265,15), (482337123,15), (482287983,15), (482238845,15), (482189709,15),
    (482140574,15), (482091442,15), (482042311,15), (481993182,15), (481944055,15), (481894930,15), (481845807,15), (481796685,15), (481747565,15), (481698447,15), (481649331,15), (481600217,15), (481551105,15), (481501994,15), (481452885,15), (481403779,15),
    (481354674,15), (481305570,15), (481256469,15), (481207369,15), (481158272,15), (481109176,15), (481060082,15), (481010990,15), (480961899,15), (480912811,15), (480863724,15), (480814639,15), (480765556,15), (480716475,15), (480667396,15), (480618318,15),
    (480569242,15), (480520168,15), (480471096,15), (480422026,15), (480372958,15), (480323891,15), (480274827,15), (480225764,15), (480176703,15), (480127643,15), (480078586,15), (480029531,15), (479980477,15), (479931425,15), (479882375,15), (479833327,15),
    (479784280,15), (479735236,15), (479686193,15), (479637152,15), (479588113,15), (479539076,15), (479490040,15), (479441007,15), (479391975,15), (479342945,15), (479293917,15), (479244891,15), (479195866,15), (479146844,15), (479097823,15), (479048804,15),
    (478999787,15), (478950772,15), (478901758,15), (478852747,15), (478803737,15), (478754729,15), (478705723,15), (478656719,15), (478607716,15), (478558715,15), (478509717,15), (478460720,15), (478411724,15), (478362731,15), (478313740,15), (478264750,15),
    (478215762,15), (478166776,15), (478117792,15), (478068810,15), (478019829,15), (477970850,15), (477921873,15), (477872898,15), (477823925,15), (477774954,15), (477725984,15), (477677016,15), (477628051,15), (477579086,15), (477530124,15), (477481164,15),
    (477432205,15), (477383248,15), (477334293,15), (477285340,15), (477236389,15), (477187439,15), (477138492,15), (477089546,15), (477040602,15), (476991660,15), (476942719,15), (476893781,15), (476844844,15), (476795909,15), (476746976,15), (476698045,15),
    (476649116,15), (476600188,15), (476551262,15), (476502338,15), (476453416,15), (476404496,15), (476355578,15), (476306661,15), (476257746,15), (476208833,15), (476159922,15), (476111013,15), (476062105,15), (476013199,15), (475964296,15), (475915394,15),
    (475866493,15), (475817595,15), (475768698,15), (475719804,15), (475670911,15), (475622020,15), (475573130,15), (475524243,15), (475475357,15), (475426473,15), (475377591,15), (475328711,15), (475279833,15), (475230956,15), (475182082,15), (475133209,15),
    (475084338,15), (475035468,15), (474986601,15), (474937735,15), (474888872,15), (474840010,15), (474791150,15), (474742291,15), (474693435,15), (474644580,15), (474595727,15), (474546876,15), (474498027,15), (474449180,15), (474400334,15), (474351490,15),
    (474302648,15), (474253808,15), (474204970,15), (474156133,15), (474107299,15), (474058466,15), (474009635,15), (473960806,15), (473911978,15), (473863153,15), (473814329,15), (473765507,15), (473716687,15), (473667869,15), (473619052,15), (473570238,15),
    (473521425,15), (473472614,15), (473423804,15), (473374997,15), (473326192,15), (473277388,15), (473228586,15), (473179786,15), (473130987,15), (473082191,15), (473033396,15), (472984603,15), (472935812,15), (472887023,15), (472838236,15), (472789450,15),
    (472740667,15), (472691885,15), (472643104,15), (472594326,15), (472545550,15), (472496775,15), (472448002,15), (472399231,15), (472350462,15), (472301694,15), (472252929,15), (472204165,15), (472155403,15), (472106643,15), (472057885,15), (472009128,15),
    (471960373,15), (471911621,15), (471862869,15), (471814120,15), (471765373,15), (471716627,15), (471667883,15), (471619141,15), (471570401,15), (471521663,15), (471472926,15), (471424191,15), (471375458,15), (471326727,15), (471277998,15), (471229271,15),
    (471180545,15), (471131821,15), (471083099,15), (471034379,15), (470985660,15), (470936944,15), (470888229,15), (470839516,15), (470790805,15), (470742095,15), (470693388,15), (470644682,15), (470595978,15), (470547276,15), (470498576,15), (470449877,15),
    (470401181,15), (470352486,15), (470303793,15), (470255101,15), (470206412,15), (470157724,15), (470109038,15), (470060354,15), (470011672,15), (469962992,15), (469914313,15), (469865637,15), (469816962,15), (469768289,15), (469719617,15), (469670948,15),
    (469622280,15), (469573614,15), (469524950,15), (469476288,15), (469427627,15), (469378969,15), (469330312,15), (469281657,15), (469233003,15), (469184352,15), (469135702,15), (469087055,15), (469038409,15), (468989764,15), (468941122,15), (468892482,15),
    (468843843,15), (468795206,15), (468746571,15), (468697937,15), (468649306,15), (468600676,15), (468552048,15), (468503422,15), (468454798,15), (468406175,15), (468357555,15), (468308936,15), (468260319,15), (468211703,15), (468163090,15), (468114478,15),
    (468065868,15), (468017260,15), (467968654,15), (467920050,15), (467871447,15), (467822846,15), (467774247,15), (467725650,15), (467677055,15), (467628461,15), (467579869,15), (467531279,15), (467482691,15), (467434105,15), (467385520,15), (467336938,15),
    (467288357,15), (467239778,15), (467191200,15), (467142625,15), (467094051,15), (467045479,15), (466996909,15), (466948341,15), (466899774,15), (466851209,15), (466802647,15), (466754085,15), (466705526,15), (466656969,15), (466608413,15), (466559859,15),
    (466511307,15), (466462757,15), (466414208,15), (466365662,15), (466317117,15), (466268574,15), (466220033,15), (466171493,15), (466122955,15), (466074420,15), (466025886,15), (465977353,15), (465928823,15), (465880294,15), (465831767,15), (465783242,15),
    (465734719,15), (465686198,15), (465637678,15), (465589160,15), (465540644,15), (465492130,15), (465443618,15), (465395107,15), (465346598,15), (465298091,15), (465249586,15), (465201083,15), (465152581,15), (465104081,15), (465055583,15), (465007087,15),
    (464958593,15), (464910100,15), (464861609,15), (464813120,15), (464764633,15), (464716148,15), (464667664,15), (464619182,15), (464570702,15), (464522224,15), (464473747,15), (464425273,15), (464376800,15), (464328329,15), (464279860,15), (464231392,15),
    (464182927,15), (464134463,15), (464086001,15), (464037541,15), (463989082,15), (463940626,15), (463892171,15), (463843718,15), (463795267,15), (463746817,15), (463698370,15), (463649924,15), (463601480,15), (463553037,15), (463504597,15), (463456158,15),
    (463407722,15), (463359286,15), (463310853,15), (463262422,15), (463213992,15), (463165564,15), (463117138,15), (463068714,15), (463020291,15), (462971871,15), (462923452,15), (462875035,15), (462826619,15), (462778206,15), (462729794,15), (462681384,15),
    (462632976,15), (462584570,15), (462536165,15), (462487763,15), (462439362,15), (462390963,15), (462342565,15), (462294170,15), (462245776,15), (462197384,15), (462148994,15), (462100606,15), (462052219,15), (462003834,15), (461955451,15), (461907070,15),
    (461858691,15), (461810313,15), (461761937,15), (461713563,15), (461665191,15), (461616821,15), (461568452,15), (461520085,15), (461471720,15), (461423357,15), (461374996,15), (461326636,15), (461278278,15), (461229922,15), (461181568,15), (461133215,15),
    (461084864,15), (461036516,15), (460988168,15), (460939823,15), (460891480,15), (460843138,15), (460794798,15), (460746460,15), (460698123,15), (460649789,15), (460601456,15), (460553125,15), (460504796,15), (460456468,15), (460408143,15), (460359819,15),
    (460311497,15), (460263177,15), (460214858,15), (460166542,15), (460118227,15), (460069914,15), (460021602,15), (459973293,15), (459924985,15), (459876679,15), (459828375,15), (459780073,15), (459731772,15), (459683473,15), (459635176,15), (459586881,15),
    (459538588,15), (459490296,15), (459442006,15), (459393718,15), (459345432,15), (459297148,15), (459248865,15), (459200584,15), (459152305,15), (459104028,15), (459055752,15), (459007479,15), (458959207,15), (458910937,15), (458862668,15), (458814402,15),
    (458766137,15), (458717874,15), (458669613,15), (458621353,15), (458573096,15), (458524840,15), (458476586,15), (458428333,15), (458380083,15), (458331834,15), (458283587,15), (458235342,15), (458187099,15), (458138857,15), (458090618,15), (458042380,15),
    (457994143,15), (457945909,15), (457897676,15), (457849446,15), (457801217,15), (457752989,15), (457704764,15), (457656540,15), (457608318,15), (457560098,15), (457511880,15), (457463663,15), (457415448,15), (457367235,15), (457319024,15), (457270815,15),
    (457222607,15), (457174401,15), (457126197,15), (457077995,15), (457029795,15), (456981596,15), (456933399,15), (456885204,15), (456837010,15), (456788819,15), (456740629,15), (456692441,15), (456644255,15), (456596070,15), (456547888,15), (456499707,15),
    (456451528,15), (456403351,15), (456355175,15), (456307001,15), (456258829,15), (456210659,15), (456162491,15), (456114324,15), (456066159,15), (456017996,15), (455969835,15), (455921675,15), (455873518,15), (455825362,15), (455777208,15), (455729055,15),
    (455680905,15), (455632756,15), (455584609,15), (455536464,15), (455488320,15), (455440179,15), (455392039,15), (455343901,15), (455295764,15), (455247630,15), (455199497,15), (455151366,15), (455103237,15), (455055109,15), (455006984,15), (454958860,15),
    (454910738,15), (454862617,15), (454814499,15), (454766382,15), (454718267,15), (454670154,15), (454622043,15), (454573933,15), (454525825,15), (454477719,15), (454429615,15), (454381512,15), (454333411,15), (454285313,15), (454237215,15), (454189120,15),
    (454141026,15), (454092934,15), (454044844,15), (453996756,15), (453948670,15), (453900585,15), (453852502,15), (453804421,15), (453756341,15), (453708264,15), (453660188,15), (453612114,15), (453564041,15), (453515971,15), (453467902,15), (453419835,15),
    (453371770,15), (453323707,15), (453275645,15), (453227585,15), (453179527,15), (453131471,15), (453083416,15), (453035363,15), (452987313,15), (452939263,15), (452891216,15), (452843170,15), (452795126,15), (452747084,15), (452699044,15), (452651005,15),
    (452602969,15), (452554934,15), (452506900,15), (452458869,15), (452410839,15), (452362811,15), (452314785,15), (452266761,15), (452218738,15), (452170717,15), (452122698,15), (452074681,15), (452026666,15), (451978652,15), (451930640,15), (451882630,15),
    (451834621,15), (451786615,15), (451738610,15), (451690607,15), (451642606,15), (451594606,15), (451546608,15), (451498612,15), (451450618,15), (451402626,15), (451354635,15), (451306646,15), (451258659,15), (451210674,15), (451162690,15), (451114708,15),
    (451066728,15), (451018750,15), (450970774,15), (450922799,15), (450874826,15), (450826855,15), (450778885,15), (450730918,15), (450682952,15), (450634988,15), (450587025,15), (450539065,15), (450491106,15), (450443149,15), (450395194,15), (450347240,15),
    (450299289,15), (450251339,15), (450203391,15), (450155444,15), (450107500,15), (450059557,15), (450011616,15), (449963676,15), (449915739,15), (449867803,15), (449819869,15), (449771937,15), (449724007,15), (449676078,15), (449628151,15), (449580226,15),
    (449532302,15), (449484381,15), (449436461,15), (449388543,15), (449340627,15), (449292712,15), (449244799,15), (449196888,15), (449148979,15), (449101072,15), (449053166,15), (449005262,15), (448957360,15), (448909459,15), (448861561,15), (448813664,15),
    (448765769,15), (448717875,15), (448669984,15), (448622094,15), (448574206,15), (448526320,15), (448478435,15), (448430553,15), (448382672,15), (448334792,15), (448286915,15), (448239039,15), (448191165,15), (448143293,15), (448095423,15), (448047554,15),
    (447999687,15), (447951822,15), (447903959,15), (447856098,15), (447808238,15), (447760380,15), (447712524,15), (447664669,15), (447616816,15), (447568965,15), (447521116,15), (447473269,15), (447425423,15), (447377579,15), (447329737,15), (447281897,15),
    (447234058,15), (447186221,15), (447138386,15), (447090553,15), (447042721,15), (446994892,15), (446947064,15), (446899237,15), (446851413,15), (446803590,15), (446755769,15), (446707950,15), (446660133,15), (446612317,15), (446564503,15), (446516691,15),
    (446468880,15), (446421072,15), (446373265,15), (446325460,15), (446277657,15), (446229855,15), (446182055,15), (446134257,15), (446086461,15), (446038666,15), (445990873,15), (445943082,15), (445895293,15), (445847506,15), (445799720,15), (445751936,15),
    (445704154,15), (445656373,15), (445608595,15), (445560818,15), (445513043,15), (445465269,15), (445417498,15), (445369728,15), (445321960,15), (445274193,15), (445226429,15), (445178666,15), (445130905,15), (445083145,15), (445035388,15), (444987632,15),
    (444939878,15), (444892126,15), (444844375,15), (444796626,15), (444748879,15), (444701134,15), (444653391,15), (444605649,15), (444557909,15), (444510171,15), (444462434,15), (444414700,15), (444366967,15), (444319236,15), (444271506,15), (444223779,15),
    (444176053,15), (444128328,15), (444080606,15), (444032885,15), (443985167,15), (443937449,15), (443889734,15), (443842021,15), (443794309,15), (443746599,15), (443698890,15), (443651184,15), (443603479,15), (443555776,15), (443508074,15), (443460375,15),
    (443412677,15), (443364981,15), (443317287,15), (443269594,15), (443221904,15), (443174215,15), (443126527,15), (443078842,15), (443031158,15), (442983476,15), (442935796,15), (442888117,15), (442840441,15), (442792766,15), (442745092,15), (442697421,15),
    (442649751,15), (442602083,15), (442554417,15), (442506753,15), (442459090,15), (442411429,15), (442363770,15), (442316112,15), (442268457,15), (442220803,15), (442173151,15), (442125500,15), (442077852,15), (442030205,15), (441982560,15), (441934916,15),
    (441887275,15), (441839635,15), (441791997,15), (441744360,15), (441696726,15), (441649093,15), (441601462,15), (441553832,15), (441506205,15), (441458579,15), (441410955,15), (441363332,15), (441315712,15), (441268093,15), (441220476,15), (441172860,15),
    (441125247,15), (441077635,15), (441030025,15), (440982416,15), (440934810,15), (440887205,15), (440839602,15), (440792000,15), (440744401,15), (440696803,15), (440649207,15), (440601613,15), (440554020,15), (440506429,15), (440458840,15), (440411253,15),
    (440363667,15), (440316083,15), (440268501,15), (440220921,15), (440173342,15), (440125765,15), (440078190,15), (440030617,15), (439983045,15), (439935475,15), (439887907,15), (439840341,15), (439792776,15), (439745214,15), (439697652,15), (439650093,15),
    (439602536,15), (439554980,15), (439507426,15), (439459873,15), (439412323,15), (439364774,15), (439317227,15), (439269681,15), (439222138,15), (439174596,15), (439127056,15), (439079517,15), (439031981,15), (438984446,15), (438936913,15), (438889381,15),
    (438841852,15), (438794324,15), (438746797,15), (438699273,15), (438651750,15), (438604230,15), (438556710,15), (438509193,15), (438461677,15), (438414163,15), (438366651,15), (438319141,15), (438271632,15), (438224125,15), (438176620,15), (438129116,15),
    (438081615,15), (438034115,15), (437986617,15), (437939120,15), (437891625,15), (437844132,15), (437796641,15), (437749152,15), (437701664,15), (437654178,15), (437606694,15), (437559211,15), (437511730,15), (437464251,15), (437416774,15), (437369299,15),
    (437321825,15), (437274353,15), (437226882,15), (437179414,15), (437131947,15), (437084482,15), (437037019,15), (436989557,15), (436942097,15), (436894639,15), (436847183,15), (436799728,15), (436752275,15), (436704824,15), (436657375,15), (436609927,15),
    (436562481,15), (436515037,15), (436467595,15), (436420154,15), (436372715,15), (436325278,15), (436277842,15), (436230409,15), (436182977,15), (436135547,15), (436088118,15), (436040691,15), (435993266,15), (435945843,15), (435898422,15), (435851002,15),
    (435803584,15), (435756167,15), (435708753,15), (435661340,15), (435613929,15), (435566520,15), (435519112,15), (435471706,15), (435424302,15), (435376900,15), (435329499,15), (435282100,15), (435234703,15), (435187308,15), (435139914,15), (435092522,15),
    (435045132,15), (434997743,15), (434950357,15), (434902972,15), (434855588,15), (434808207,15), (434760827,15), (434713449,15), (434666073,15), (434618698,15), (434571325,15), (434523954,15), (434476585,15), (434429217,15), (434381852,15), (434334487,15),
    (434287125,15), (434239764,15), (434192406,15), (434145048,15), (434097693,15), (434050339,15), (434002987,15), (433955637,15), (433908289,15), (433860942,15), (433813597,15), (433766254,15), (433718912,15), (433671572,15), (433624234,15), (433576898,15),
    (433529563,15), (433482230,15), (433434899,15), (433387570,15), (433340242,15), (433292916,15), (433245592,15), (433198270,15), (433150949,15), (433103630,15), (433056313,15), (433008997,15), (432961684,15), (432914372,15), (432867061,15), (432819753,15),
    (432772446,15), (432725141,15), (432677837,15), (432630536,15), (432583236,15), (432535938,15), (432488641,15), (432441347,15), (432394054,15), (432346762,15), (432299473,15), (432252185,15), (432204899,15), (432157615,15), (432110332,15), (432063052,15),
    (432015773,15), (431968495,15), (431921220,15), (431873946,15), (431826674,15), (431779403,15), (431732134,15), (431684867,15), (431637602,15), (431590339,15), (431543077,15), (431495817,15), (431448559,15), (431401302,15), (431354047,15), (431306794,15),
    (431259543,15), (431212293,15), (431165045,15), (431117799,15), (431070555,15), (431023312,15), (430976071,15), (430928832,15), (430881594,15), (430834358,15), (430787124,15), (430739892,15), (430692661,15), (430645433,15), (430598206,15), (430550980,15),
    (430503756,15), (430456534,15), (430409314,15), (430362096,15), (430314879,15), (430267664,15), (430220451,15), (430173239,15), (430126029,15), (430078821,15), (430031615,15), (429984410,15), (429937207,15), (429890006,15), (429842807,15), (429795609,15),
    (429748413,15), (429701219,15), (429654026,15), (429606835,15), (429559646,15), (429512459,15), (429465273,15), (429418089,15), (429370907,15), (429323727,15), (429276548,15), (429229371,15), (429182196,15), (429135022,15), (429087850,15), (429040680,15),
    (428993512,15), (428946345,15), (428899180,15), (428852017,15), (428804856,15), (428757696,15), (428710538,15), (428663382,15), (428616227,15), (428569074,15), (428521923,15), (428474774,15), (428427626,15), (428380480,15), (428333336,15), (428286194,15),
    (428239053,15), (428191914,15), (428144777,15), (428097641,15), (428050507,15), (428003375,15), (427956245,15), (427909116,15), (427861989,15), (427814864,15), (427767741,15), (427720619,15), (427673499,15), (427626380,15), (427579264,15), (427532149,15),
    (427485036,15), (427437924,15), (427390815,15), (427343707,15), (427296600,15), (427249496,15), (427202393,15), (427155292,15), (427108193,15), (427061095,15), (427013999,15), (426966905,15), (426919813,15), (426872722,15), (426825633,15), (426778546,15),
    (426731460,15), (426684376,15), (426637294,15), (426590214,15), (426543135,15), (426496058,15), (426448983,15), (426401909,15), (426354837,15), (426307767,15), (426260699,15), (426213632,15), (426166567,15), (426119504,15), (426072443,15), (426025383,15),
    (425978325,15), (425931269,15), (425884214,15), (425837161,15), (425790110,15), (425743061,15), (425696013,15), (425648967,15), (425601923,15), (425554880,15), (425507839,15), (425460800,15), (425413763,15), (425366727,15), (425319693,15), (425272661,15),
    (425225631,15), (425178602,15), (425131575,15), (425084550,15), (425037526,15), (424990504,15), (424943484,15), (424896465,15), (424849449,15), (424802434,15), (424755420,15), (424708409,15), (424661399,15), (424614391,15), (424567384,15), (424520380,15),
    (424473377,15), (424426375,15), (424379376,15), (424332378,15), (424285382,15), (424238387,15), (424191395,15), (424144404,15), (424097414,15), (424050427,15), (424003441,15), (423956457,15), (423909475,15), (423862494,15), (423815515,15), (423768538,15),
    (423721562,15), (423674588,15), (423627616,15), (423580646,15), (423533677,15), (423486710,15), (423439745,15), (423392782,15), (423345820,15), (423298860,15), (423251901,15), (423204945,15), (423157990,15), (423111037,15), (423064085,15), (423017135,15),
    (422970187,15), (422923241,15), (422876296,15), (422829353,15), (422782412,15), (422735473,15), (422688535,15), (422641599,15), (422594664,15), (422547732,15), (422500801,15), (422453872,15), (422406944,15), (422360018,15), (422313094,15), (422266172,15),
    (422219251,15), (422172332,15), (422125415,15), (422078500,15), (422031586,15), (421984674,15), (421937763,15), (421890855,15), (421843948,15), (421797042,15), (421750139,15), (421703237,15), (421656337,15), (421609439,15), (421562542,15), (421515647,15),
    (421468754,15), (421421862,15), (421374973,15), (421328084,15), (421281198,15), (421234313,15), (421187430,15), (421140549,15), (421093670,15), (421046792,15), (420999916,15), (420953041,15), (420906168,15), (420859297,15), (420812428,15), (420765561,15),
    (420718695,15), (420671831,15), (420624968,15), (420578107,15), (420531248,15), (420484391,15), (420437535,15), (420390682,15), (420343829,15), (420296979,15), (420250130,15), (420203283,15), (420156438,15), (420109594,15), (420062752,15), (420015912,15),
    (419969074,15), (419922237,15), (419875402,15), (419828568,15), (419781737,15), (419734907,15), (419688078,15), (419641252,15), (419594427,15), (419547604,15), (419500782,15), (419453963,15), (419407145,15), (419360328,15), (419313514,15), (419266701,15),
    (419219890,15), (419173080,15), (419126273,15), (419079466,15), (419032662,15), (418985859,15), (418939059,15), (418892259,15), (418845462,15), (418798666,15), (418751872,15), (418705080,15), (418658289,15), (418611500,15), (418564713,15), (418517927,15),
    (418471143,15), (418424361,15), (418377580,15), (418330802,15), (418284025,15), (418237249,15), (418190476,15), (418143704,15), (418096934,15), (418050165,15), (418003398,15), (417956633,15), (417909870,15), (417863108,15), (417816348,15), (417769590,15),
    (417722833,15), (417676078,15), (417629325,15), (417582574,15), (417535824,15), (417489076,15), (417442329,15), (417395585,15), (417348842,15), (417302101,15), (417255361,15), (417208623,15), (417161887,15), (417115153,15), (417068420,15), (417021689,15),
    (416974960,15), (416928232,15), (416881506,15), (416834782,15), (416788059,15), (416741338,15), (416694619,15), (416647902,15), (416601186,15), (416554472,15), (416507760,15), (416461049,15), (416414340,15), (416367633,15), (416320928,15), (416274224,15),
    (416227522,15), (416180822,15), (416134123,15), (416087426,15), (416040731,15), (415994037,15), (415947345,15), (415900655,15), (415853966,15), (415807280,15), (415760595,15), (415713911,15), (415667230,15), (415620550,15), (415573871,15), (415527195,15),
    (415480520,15), (415433847,15), (415387175,15), (415340505,15), (415293837,15), (415247171,15), (415200506,15), (415153843,15), (415107182,15), (415060522,15), (415013865,15), (414967208,15), (414920554,15), (414873901,15), (414827250,15), (414780601,15),
    (414733953,15), (414687307,15), (414640663,15), (414594020,15), (414547379,15), (414500740,15), (414454102,15), (414407467,15), (414360833,15), (414314200,15), (414267569,15), (414220940,15), (414174313,15), (414127687,15), (414081064,15), (414034441,15),
    (413987821,15), (413941202,15), (413894585,15), (413847969,15), (413801356,15), (413754744,15), (413708133,15), (413661525,15), (413614918,15), (413568312,15), (413521709,15), (413475107,15), (413428507,15), (413381908,15), (413335312,15), (413288717,15),
    (413242123,15), (413195531,15), (413148941,15), (413102353,15), (413055767,15), (413009182,15), (412962598,15), (412916017,15), (412869437,15), (412822859,15), (412776283,15), (412729708,15), (412683135,15), (412636563,15), (412589994,15), (412543426,15),
    (412496860,15), (412450295,15), (412403732,15), (412357171,15), (412310611,15), (412264054,15), (412217498,15), (412170943,15), (412124390,15), (412077839,15), (412031290,15), (411984742,15), (411938196,15), (411891652,15), (411845110,15), (411798569,15),
    (411752030,15), (411705492,15), (411658956,15), (411612422,15), (411565890,15), (411519359,15), (411472830,15), (411426303,15), (411379777,15), (411333253,15), (411286731,15), (411240210,15), (411193692,15), (411147174,15), (411100659,15), (411054145,15),
    (411007633,15), (410961123,15), (410914614,15), (410868107,15), (410821601,15), (410775098,15), (410728596,15), (410682096,15), (410635597,15), (410589100,15), (410542605,15), (410496111,15), (410449620,15), (410403129,15), (410356641,15), (410310154,15),
    (410263669,15), (410217186,15), (410170704,15), (410124224,15), (410077746,15), (410031269,15), (409984794,15), (409938321,15), (409891850,15), (409845380,15), (409798912,15), (409752445,15), (409705980,15), (409659517,15), (409613056,15), (409566596,15),
    (409520138,15), (409473682,15), (409427227,15), (409380774,15), (409334323,15), (409287873,15), (409241425,15), (409194979,15), (409148535,15), (409102092,15), (409055651,15), (409009211,15), (408962773,15), (408916337,15), (408869903,15), (408823470,15),
    (408777039,15), (408730610,15), (408684182,15), (408637756,15), (408591332,15), (408544909,15), (408498488,15), (408452069,15), (408405651,15), (408359236,15), (408312821,15), (408266409,15), (408219998,15), (408173589,15), (408127182,15), (408080776,15),
    (408034372,15), (407987969,15), (407941569,15), (407895170,15), (407848772,15), (407802377,15), (407755983,15), (407709590,15), (407663200,15), (407616811,15), (407570424,15), (407524038,15), (407477654,15), (407431272,15), (407384892,15), (407338513,15),
    (407292136,15), (407245760,15), (407199387,15), (407153015,15), (407106644,15), (407060276,15), (407013909,15), (406967543,15), (406921180,15), (406874818,15), (406828457,15), (406782099,15), (406735742,15), (406689387,15), (406643033,15), (406596681,15),
    (406550331,15), (406503983,15), (406457636,15), (406411291,15), (406364947,15), (406318605,15), (406272265,15), (406225927,15), (406179590,15), (406133255,15), (406086922,15), (406040590,15), (405994260,15), (405947932,15), (405901605,15), (405855280,15),
    (405808957,15), (405762635,15), (405716315,15), (405669997,15), (405623681,15), (405577366,15), (405531053,15), (405484741,15), (405438431,15), (405392123,15), (405345817,15), (405299512,15), (405253209,15), (405206907,15), (405160608,15), (405114309,15),
    (405068013,15), (405021718,15), (404975425,15), (404929134,15), (404882844,15), (404836556,15), (404790270,15), (404743985,15), (404697702,15), (404651421,15), (404605141,15), (404558864,15), (404512587,15), (404466313,15), (404420040,15), (404373769,15),
    (404327499,15), (404281231,15), (404234965,15), (404188701,15), (404142438,15), (404096177,15), (404049917,15), (404003659,15), (403957403,15), (403911149,15), (403864896,15), (403818645,15), (403772395,15), (403726148,15), (403679902,15), (403633657,15),
    (403587415,15), (403541174,15), (403494934,15), (403448697,15), (403402461,15), (403356226,15), (403309994,15), (403263763,15), (403217533,15), (403171306,15), (403125080,15), (403078856,15), (403032633,15), (402986412,15), (402940193,15), (402893975,15),
    (402847759,15), (402801545,15), (402755333,15), (402709122,15), (402662913,15), (402616705,15), (402570499,15), (402524295,15), (402478093,15), (402431892,15), (402385693,15), (402339495,15), (402293299,15), (402247105,15), (402200913,15), (402154722,15),
    (402108533,15), (402062345,15), (402016160,15), (401969976,15), (401923793,15), (401877612,15), (401831433,15), (401785256,15), (401739080,15), (401692906,15), (401646734,15), (401600563,15), (401554394,15), (401508227,15), (401462061,15), (401415897,15),
    (401369735,15), (401323574,15), (401277415,15), (401231258,15), (401185102,15), (401138948,15), (401092796,15), (401046645,15), (401000496,15), (400954349,15), (400908203,15), (400862059,15), (400815917,15), (400769777,15), (400723638,15), (400677500,15),
    (400631365,15), (400585231,15), (400539099,15), (400492968,15), (400446839,15), (400400712,15), (400354586,15), (400308462,15), (400262340,15), (400216220,15), (400170101,15), (400123983,15), (400077868,15), (400031754,15), (399985642,15), (399939531,15),
    (399893422,15), (399847315,15), (399801210,15), (399755106,15), (399709004,15), (399662903,15), (399616804,15), (399570707,15), (399524611,15), (399478518,15), (399432425,15), (399386335,15), (399340246,15), (399294159,15), (399248073,15), (399201989,15),
    (399155907,15), (399109827,15), (399063748,15), (399017671,15), (398971595,15), (398925521,15), (398879449,15), (398833379,15), (398787310,15), (398741243,15), (398695177,15), (398649113,15), (398603051,15), (398556991,15), (398510932,15), (398464875,15),
    (398418819,15), (398372765,15), (398326713,15), (398280663,15), (398234614,15), (398188567,15), (398142521,15), (398096477,15), (398050435,15), (398004395,15), (397958356,15), (397912318,15), (397866283,15), (397820249,15), (397774217,15), (397728186,15),
    (397682158,15), (397636130,15), (397590105,15), (397544081,15), (397498059,15), (397452038,15), (397406019,15), (397360002,15), (397313987,15), (397267973,15), (397221960,15), (397175950,15), (397129941,15), (397083934,15), (397037928,15), (396991924,15),
    (396945922,15), (396899922,15), (396853923,15), (396807925,15), (396761930,15), (396715936,15), (396669944,15), (396623953,15), (396577964,15), (396531977,15), (396485991,15), (396440007,15), (396394025,15), (396348044,15), (396302065,15), (396256088,15),
    (396210113,15), (396164139,15), (396118166,15), (396072196,15), (396026227,15), (395980259,15), (395934294,15), (395888330,15), (395842367,15), (395796407,15), (395750448,15), (395704490,15), (395658535,15), (395612581,15), (395566628,15), (395520677,15),
    (395474728,15), (395428781,15), (395382835,15), (395336891,15), (395290949,15), (395245008,15), (395199069,15), (395153132,15), (395107196,15), (395061262,15), (395015329,15), (394969398,15), (394923469,15), (394877542,15), (394831616,15), (394785692,15),
    (394739769,15), (394693848,15), (394647929,15), (394602012,15), (394556096,15), (394510182,15), (394464269,15), (394418358,15), (394372449,15), (394326542,15), (394280636,15), (394234731,15), (394188829,15), (394142928,15), (394097029,15), (394051131,15),
    (394005235,15), (393959341,15), (393913448,15), (393867557,15), (393821668,15), (393775780,15), (393729894,15), (393684010,15), (393638127,15), (393592246,15), (393546366,15), (393500489,15), (393454613,15), (393408738,15), (393362866,15), (393316994,15),
    (393271125,15), (393225257,15), (393179391,15), (393133527,15), (393087664,15), (393041803,15), (392995943,15), (392950085,15), (392904229,15), (392858374,15), (392812522,15), (392766670,15), (392720821,15), (392674973,15), (392629126,15), (392583282,15),
    (392537439,15), (392491598,15), (392445758,15), (392399920,15), (392354084,15), (392308249,15), (392262416,15), (392216584,15), (392170755,15), (392124927,15), (392079100,15), (392033275,15), (391987452,15), (391941631,15), (391895811,15), (391849993,15),
    (391804176,15), (391758362,15), (391712548,15), (391666737,15), (391620927,15), (391575119,15), (391529312,15), (391483507,15), (391437704,15), (391391902,15), (391346102,15), (391300304,15), (391254507,15), (391208712,15), (391162919,15), (391117127,15),
    (391071337,15), (391025549,15), (390979762,15), (390933977,15), (390888194,15), (390842412,15), (390796632,15), (390750853,15), (390705076,15), (390659301,15), (390613528,15), (390567756,15), (390521985,15), (390476217,15), (390430450,15), (390384685,15),
    (390338921,15), (390293159,15), (390247399,15), (390201640,15), (390155883,15), (390110128,15), (390064374,15), (390018622,15), (389972871,15), (389927122,15), (389881375,15), (389835630,15), (389789886,15), (389744144,15), (389698403,15), (389652664,15),
    (389606927,15), (389561192,15), (389515458,15), (389469725,15), (389423995,15), (389378266,15), (389332538,15), (389286813,15), (389241089,15), (389195366,15), (389149645,15), (389103926,15), (389058209,15), (389012493,15), (388966779,15), (388921066,15),
    (388875355,15), (388829646,15), (388783939,15), (388738233,15), (388692528,15), (388646826,15), (388601125,15), (388555425,15), (388509728,15), (388464032,15), (388418337,15), (388372645,15), (388326953,15), (388281264,15), (388235576,15), (388189890,15),
    (388144206,15), (388098523,15), (388052841,15), (388007162,15), (387961484,15), (387915808,15), (387870133,15), (387824460,15), (387778789,15), (387733119,15), (387687451,15), (387641784,15), (387596120,15), (387550457,15), (387504795,15), (387459135,15),
    (387413477,15), (387367821,15), (387322166,15), (387276512,15), (387230861,15), (387185211,15), (387139562,15), (387093916,15), (387048271,15), (387002627,15), (386956986,15), (386911345,15), (386865707,15), (386820070,15), (386774435,15), (386728802,15),
    (386683170,15), (386637539,15), (386591911,15), (386546284,15), (386500659,15), (386455035,15), (386409413,15), (386363792,15), (386318174,15), (386272557,15), (386226941,15), (386181327,15), (386135715,15), (386090105,15), (386044496,15), (385998888,15),
    (385953283,15), (385907679,15), (385862077,15), (385816476,15), (385770877,15), (385725279,15), (385679684,15), (385634090,15), (385588497,15), (385542906,15), (385497317,15), (385451730,15), (385406144,15), (385360559,15), (385314977,15), (385269396,15),
    (385223816,15), (385178239,15), (385132663,15), (385087088,15), (385041515,15), (384995944,15), (384950375,15), (384904807,15), (384859241,15), (384813676,15), (384768113,15), (384722552,15), (384676992,15), (384631434,15), (384585878,15), (384540323,15),
    (384494770,15), (384449218,15), (384403669,15), (384358120,15), (384312574,15), (384267029,15), (384221486,15), (384175944,15), (384130404,15), (384084866,15), (384039329,15), (383993794,15), (383948260,15), (383902729,15), (383857198,15), (383811670,15),
    (383766143,15), (383720618,15), (383675094,15), (383629572,15), (383584052,15), (383538533,15), (383493016,15), (383447501,15), (383401987,15), (383356475,15), (383310964,15), (383265455,15), (383219948,15), (383174442,15), (383128938,15), (383083436,15),
    (383037935,15), (382992436,15), (382946939,15), (382901443,15), (382855949,15), (382810456,15), (382764966,15), (382719476,15), (382673989,15), (382628503,15), (382583018,15), (382537536,15), (382492055,15), (382446575,15), (382401097,15), (382355621,15),
    (382310147,15), (382264674,15), (382219202,15), (382173733,15), (382128265,15), (382082798,15), (382037334,15), (381991871,15), (381946409,15), (381900949,15), (381855491,15), (381810035,15), (381764580,15), (381719126,15), (381673675,15), (381628225,15),
    (381582776,15), (381537330,15), (381491884,15), (381446441,15), (381400999,15), (381355559,15), (381310120,15), (381264683,15), (381219248,15), (381173814,15), (381128382,15), (381082952,15), (381037523,15), (380992096,15), (380946670,15), (380901247,15),
    (380855824,15), (380810404,15), (380764985,15), (380719567,15), (380674152,15), (380628737,15), (380583325,15), (380537914,15), (380492505,15), (380447097,15), (380401691,15), (380356287,15), (380310884,15), (380265483,15), (380220084,15), (380174686,15),
    (380129290,15), (380083895,15), (380038502,15), (379993111,15), (379947722,15), (379902334,15), (379856947,15), (379811562,15), (379766179,15), (379720798,15), (379675418,15), (379630040,15), (379584663,15), (379539288,15), (379493915,15), (379448543,15),
    (379403173,15), (379357805,15), (379312438,15), (379267073,15), (379221709,15), (379176347,15), (379130987,15), (379085628,15), (379040271,15), (378994916,15), (378949562,15), (378904210,15), (378858859,15), (378813510,15), (378768163,15), (378722817,15),
    (378677473,15), (378632131,15), (378586790,15), (378541451,15), (378496113,15), (378450777,15), (378405443,15), (378360111,15), (378314780,15), (378269450,15), (378224122,15), (378178796,15), (378133472,15), (378088149,15), (378042828,15), (377997508,15),
    (377952190,15), (377906874,15), (377861559,15), (377816246,15), (377770934,15), (377725624,15), (377680316,15), (377635010,15), (377589705,15), (377544401,15), (377499100,15), (377453799,15), (377408501,15), (377363204,15), (377317909,15), (377272615,15),
    (377227323,15), (377182033,15), (377136744,15), (377091457,15), (377046172,15), (377000888,15), (376955606,15), (376910325,15), (376865046,15), (376819769,15), (376774493,15), (376729219,15), (376683946,15), (376638675,15), (376593406,15), (376548138,15),
    (376502873,15), (376457608,15), (376412345,15), (376367084,15), (376321825,15), (376276567,15), (376231311,15), (376186056,15), (376140803,15), (376095552,15), (376050302,15), (376005054,15), (375959807,15), (375914562,15), (375869319,15), (375824077,15),
    (375778837,15), (375733599,15), (375688362,15), (375643127,15), (375597893,15), (375552662,15), (375507431,15), (375462203,15), (375416976,15), (375371750,15), (375326526,15), (375281304,15), (375236084,15), (375190865,15), (375145647,15), (375100432,15),
    (375055217,15), (375010005,15), (374964794,15), (374919585,15), (374874377,15), (374829171,15), (374783967,15), (374738764,15), (374693563,15), (374648364,15), (374603166,15), (374557970,15), (374512775,15), (374467582,15), (374422390,15), (374377201,15),
    (374332013,15), (374286826,15), (374241641,15), (374196458,15), (374151276,15), (374106096,15), (374060918,15), (374015741,15), (373970566,15), (373925392,15), (373880220,15), (373835050,15), (373789881,15), (373744714,15), (373699548,15), (373654384,15),
    (373609222,15), (373564062,15), (373518902,15), (373473745,15), (373428589,15), (373383435,15), (373338283,15), (373293132,15), (373247982,15), (373202835,15), (373157689,15), (373112544,15), (373067401,15), (373022260,15), (372977120,15), (372931982,15),
    (372886846,15), (372841711,15), (372796578,15), (372751447,15), (372706317,15), (372661188,15), (372616062,15), (372570937,15), (372525813,15), (372480691,15), (372435571,15), (372390452,15), (372345335,15), (372300220,15), (372255106,15), (372209994,15),
    (372164884,15), (372119775,15), (372074667,15), (372029562,15), (371984458,15), (371939355,15), (371894254,15), (371849155,15), (371804058,15), (371758962,15), (371713867,15), (371668774,15), (371623683,15), (371578594,15), (371533506,15), (371488419,15),
    (371443335,15), (371398252,15), (371353170,15), (371308090,15), (371263012,15), (371217936,15), (371172861,15), (371127787,15), (371082715,15), (371037645,15), (370992577,15), (370947510,15), (370902444,15), (370857381,15), (370812318,15), (370767258,15),
    (370722199,15), (370677142,15), (370632086,15), (370587032,15), (370541980,15), (370496929,15), (370451880,15), (370406832,15), (370361786,15), (370316742,15), (370271699,15), (370226658,15), (370181618,15), (370136580,15), (370091544,15), (370046509,15),
    (370001476,15), (369956445,15), (369911415,15), (369866387,15), (369821360,15), (369776335,15), (369731311,15), (369686290,15), (369641269,15), (369596251,15), (369551234,15), (369506218,15), (369461205,15), (369416193,15), (369371182,15), (369326173,15),
    (369281166,15), (369236160,15), (369191156,15), (369146153,15), (369101153,15), (369056153,15), (369011156,15), (368966159,15), (368921165,15), (368876172,15), (368831181,15), (368786191,15), (368741203,15), (368696217,15), (368651232,15), (368606249,15),
    (368561267,15), (368516287,15), (368471309,15), (368426332,15), (368381357,15), (368336384,15), (368291412,15), (368246441,15), (368201473,15), (368156505,15), (368111540,15), (368066576,15), (368021614,15), (367976653,15), (367931694,15), (367886737,15),
    (367841781,15), (367796826,15), (367751874,15), (367706923,15), (367661973,15), (367617025,15), (367572079,15), (367527135,15), (367482192,15), (367437250,15), (367392310,15), (367347372,15), (367302436,15), (367257501,15), (367212567,15), (367167635,15),
    (367122705,15), (367077777,15), (367032850,15), (366987924,15), (366943001,15), (366898079,15), (366853158,15), (366808239,15), (366763322,15), (366718406,15), (366673492,15), (366628580,15), (366583669,15), (366538759,15), (366493852,15), (366448946,15),
    (366404041,15), (366359138,15), (366314237,15), (366269337,15), (366224439,15), (366179543,15), (366134648,15), (366089755,15), (366044863,15), (365999973,15), (365955084,15), (365910198,15), (365865312,15), (365820429,15), (365775547,15), (365730666,15),
    (365685787,15), (365640910,15), (365596035,15), (365551161,15), (365506288,15), (365461417,15), (365416548,15), (365371681,15), (365326814,15), (365281950,15), (365237087,15), (365192226,15), (365147366,15), (365102508,15), (365057652,15), (365012797,15),
    (364967944,15), (364923093,15), (364878243,15), (364833394,15), (364788547,15), (364743702,15), (364698859,15), (364654017,15), (364609176,15), (364564337,15), (364519500,15), (364474665,15), (364429831,15), (364384998,15), (364340168,15), (364295338,15),
    (364250511,15), (364205685,15), (364160860,15), (364116038,15), (364071216,15), (364026397,15), (363981579,15), (363936762,15), (363891948,15), (363847135,15), (363802323,15), (363757513,15), (363712705,15), (363667898,15), (363623093,15), (363578289,15),
    (363533487,15), (363488687,15), (363443888,15), (363399091,15), (363354295,15), (363309501,15), (363264709,15), (363219918,15), (363175129,15), (363130341,15), (363085555,15), (363040771,15), (362995988,15), (362951207,15), (362906427,15), (362861649,15),
    (362816873,15), (362772098,15), (362727324,15), (362682553,15), (362637783,15), (362593014,15), (362548248,15), (362503482,15), (362458719,15), (362413957,15), (362369196,15), (362324437,15), (362279680,15), (362234924,15), (362190170,15), (362145418,15),
    (362100667,15), (362055918,15), (362011170,15), (361966424,15), (361921679,15), (361876937,15), (361832195,15), (361787456,15), (361742717,15), (361697981,15), (361653246,15), (361608513,15), (361563781,15), (361519051,15), (361474322,15), (361429595,15),
    (361384870,15), (361340146,15), (361295424,15), (361250703,15), (361205985,15), (361161267,15), (361116551,15), (361071837,15), (361027125,15), (360982414,15), (360937704,15), (360892996,15), (360848290,15), (360803585,15), (360758882,15), (360714181,15),
    (360669481,15), (360624783,15), (360580086,15), (360535391,15), (360490698,15), (360446006,15), (360401316,15), (360356627,15), (360311940,15), (360267254,15), (360222570,15), (360177888,15), (360133207,15), (360088528,15), (360043851,15), (359999175,15),
    (359954500,15), (359909827,15), (359865156,15), (359820487,15), (359775819,15), (359731152,15), (359686487,15), (359641824,15), (359597163,15), (359552503,15), (359507844,15), (359463187,15), (359418532,15), (359373878,15), (359329226,15), (359284576,15),
    (359239927,15), (359195279,15), (359150634,15), (359105990,15), (359061347,15), (359016706,15), (358972067,15), (358927429,15), (358882793,15), (358838158,15), (358793525,15), (358748894,15), (358704264,15), (358659636,15), (358615009,15), (358570384,15),
    (358525761,15), (358481139,15), (358436518,15), (358391900,15), (358347283,15), (358302667,15), (358258053,15), (358213441,15), (358168830,15), (358124221,15), (358079613,15), (358035007,15), (357990403,15), (357945800,15), (357901199,15), (357856599,15),
    (357812001,15), (357767405,15), (357722810,15), (357678216,15), (357633625,15), (357589035,15), (357544446,15), (357499859,15), (357455274,15), (357410690,15), (357366108,15), (357321527,15), (357276948,15), (357232371,15), (357187795,15), (357143221,15),
    (357098648,15), (357054077,15), (357009508,15), (356964940,15), (356920373,15), (356875809,15), (356831245,15), (356786684,15), (356742124,15), (356697566,15), (356653009,15), (356608454,15), (356563900,15), (356519348,15), (356474797,15), (356430249,15),
    (356385701,15), (356341156,15), (356296611,15), (356252069,15), (356207528,15), (356162989,15), (356118451,15), (356073915,15), (356029380,15), (355984847,15), (355940316,15), (355895786,15), (355851257,15), (355806731,15), (355762206,15), (355717682,15),
    (355673160,15), (355628640,15), (355584121,15), (355539604,15), (355495088,15), (355450574,15), (355406062,15), (355361551,15), (355317042,15), (355272534,15), (355228028,15), (355183523,15), (355139020,15), (355094519,15), (355050019,15), (355005521,15),
    (354961025,15), (354916530,15), (354872036,15), (354827544,15), (354783054,15), (354738565,15), (354694078,15), (354649593,15), (354605109,15), (354560626,15), (354516145,15), (354471666,15), (354427189,15), (354382713,15), (354338238,15), (354293765,15),
    (354249294,15), (354204824,15), (354160356,15), (354115890,15), (354071425,15), (354026961,15), (353982499,15), (353938039,15), (353893580,15), (353849123,15), (353804668,15), (353760214,15), (353715762,15), (353671311,15), (353626862,15), (353582414,15),
    (353537968,15), (353493524,15), (353449081,15), (353404640,15), (353360200,15), (353315762,15), (353271325,15), (353226890,15), (353182457,15), (353138025,15), (353093595,15), (353049166,15), (353004739,15), (352960314,15), (352915890,15), (352871467,15),
    (352827047,15), (352782628,15), (352738210,15), (352693794,15), (352649379,15), (352604967,15), (352560555,15), (352516146,15), (352471738,15), (352427331,15), (352382926,15), (352338523,15), (352294121,15), (352249721,15), (352205322,15), (352160925,15),
    (352116529,15), (352072135,15), (352027743,15), (351983352,15), (351938963,15), (351894575,15), (351850189,15), (351805805,15), (351761422,15), (351717041,15), (351672661,15), (351628283,15), (351583906,15), (351539531,15), (351495158,15), (351450786,15),
    (351406416,15), (351362047,15), (351317680,15), (351273314,15), (351228950,15), (351184588,15), (351140227,15), (351095868,15), (351051510,15), (351007154,15), (350962799,15), (350918446,15), (350874095,15), (350829745,15), (350785397,15), (350741050,15),
    (350696705,15), (350652362,15), (350608020,15), (350563679,15), (350519341,15), (350475003,15), (350430668,15), (350386334,15), (350342001,15), (350297670,15), (350253341,15), (350209013,15), (350164687,15), (350120362,15), (350076039,15), (350031718,15),
    (349987398,15), (349943080,15), (349898763,15), (349854448,15), (349810134,15), (349765822,15), (349721512,15), (349677203,15), (349632895,15), (349588590,15), (349544285,15), (349499983,15), (349455682,15), (349411382,15), (349367084,15), (349322788,15),
    (349278493,15), (349234200,15), (349189909,15), (349145619,15), (349101330,15), (349057043,15), (349012758,15), (348968474,15), (348924192,15), (348879911,15), (348835632,15), (348791355,15), (348747079,15), (348702805,15), (348658532,15), (348614261,15),
    (348569991,15), (348525723,15), (348481457,15), (348437192,15), (348392928,15), (348348667,15), (348304406,15), (348260148,15), (348215891,15), (348171635,15), (348127381,15), (348083129,15), (348038878,15), (347994629,15), (347950381,15), (347906135,15),
    (347861891,15), (347817648,15), (347773406,15), (347729167,15), (347684928,15), (347640692,15), (347596457,15), (347552223,15), (347507991,15), (347463761,15), (347419532,15), (347375305,15), (347331079,15), (347286855,15), (347242632,15), (347198411,15),
    (347154192,15), (347109974,15), (347065758,15), (347021543,15), (346977330,15), (346933119,15), (346888909,15), (346844700,15), (346800493,15), (346756288,15), (346712084,15), (346667882,15), (346623681,15), (346579482,15), (346535285,15), (346491089,15),
    (346446895,15), (346402702,15), (346358511,15), (346314321,15), (346270133,15), (346225946,15), (346181762,15), (346137578,15), (346093396,15), (346049216,15), (346005037,15), (345960860,15), (345916685,15), (345872511,15), (345828338,15), (345784168,15),
    (345739998,15), (345695831,15), (345651664,15), (345607500,15), (345563337,15), (345519175,15), (345475015,15), (345430857,15), (345386700,15), (345342545,15), (345298391,15), (345254239,15), (345210089,15), (345165940,15), (345121793,15), (345077647,15),
    (345033502,15), (344989360,15), (344945219,15), (344901079,15), (344856941,15), (344812805,15), (344768670,15), (344724536,15), (344680405,15), (344636275,15), (344592146,15), (344548019,15), (344503893,15), (344459769,15), (344415647,15), (344371526,15),
    (344327407,15), (344283289,15), (344239173,15), (344195059,15), (344150946,15), (344106834,15), (344062724,15), (344018616,15), (343974509,15), (343930404,15), (343886300,15), (343842198,15), (343798098,15), (343753999,15), (343709901,15), (343665806,15),
    (343621711,15), (343577619,15), (343533528,15), (343489438,15), (343445350,15), (343401263,15), (343357179,15), (343313095,15), (343269013,15), (343224933,15), (343180855,15), (343136777,15), (343092702,15), (343048628,15), (343004556,15), (342960485,15),
    (342916415,15), (342872348,15), (342828281,15), (342784217,15), (342740154,15), (342696092,15), (342652032,15), (342607974,15), (342563917,15), (342519862,15), (342475808,15), (342431756,15), (342387705,15), (342343656,15), (342299609,15), (342255563,15),
    (342211519,15), (342167476,15), (342123435,15), (342079395,15), (342035357,15), (341991320,15), (341947285,15), (341903252,15), (341859220,15), (341815190,15), (341771161,15), (341727134,15), (341683108,15), (341639084,15), (341595061,15), (341551040,15),
    (341507021,15), (341463003,15), (341418987,15), (341374972,15), (341330959,15), (341286947,15), (341242937,15), (341198928,15), (341154922,15), (341110916,15), (341066912,15), (341022910,15), (340978909,15), (340934910,15), (340890912,15), (340846916,15),
    (340802922,15), (340758929,15), (340714937,15), (340670947,15), (340626959,15), (340582972,15), (340538987,15), (340495004,15), (340451021,15), (340407041,15), (340363062,15), (340319085,15), (340275109,15), (340231134,15), (340187162,15), (340143190,15),
    (340099221,15), (340055253,15), (340011286,15), (339967321,15), (339923358,15), (339879396,15), (339835436,15), (339791477,15), (339747520,15), (339703564,15), (339659610,15), (339615657,15), (339571706,15), (339527757,15), (339483809,15), (339439863,15),
    (339395918,15), (339351974,15), (339308033,15), (339264093,15), (339220154,15), (339176217,15), (339132282,15), (339088348,15), (339044415,15), (339000484,15), (338956555,15), (338912628,15), (338868701,15), (338824777,15), (338780854,15), (338736932,15),
    (338693012,15), (338649094,15), (338605177,15), (338561262,15), (338517348,15), (338473436,15), (338429525,15), (338385616,15), (338341709,15), (338297803,15), (338253898,15), (338209995,15), (338166094,15), (338122194,15), (338078296,15), (338034399,15),
    (337990504,15), (337946610,15), (337902718,15), (337858828,15), (337814939,15), (337771052,15), (337727166,15), (337683281,15), (337639399,15), (337595518,15), (337551638,15), (337507760,15), (337463883,15), (337420008,15), (337376135,15), (337332263,15),
    (337288393,15), (337244524,15), (337200657,15), (337156791,15), (337112927,15), (337069064,15), (337025203,15), (336981344,15), (336937486,15), (336893629,15), (336849774,15), (336805921,15), (336762069,15), (336718219,15), (336674371,15), (336630523,15),
    (336586678,15), (336542834,15), (336498991,15), (336455150,15), (336411311,15), (336367473,15), (336323637,15), (336279802,15), (336235969,15), (336192137,15), (336148307,15), (336104479,15), (336060652,15), (336016826,15), (335973002,15), (335929180,15),
    (335885359,15), (335841540,15), (335797722,15), (335753906,15), (335710092,15), (335666278,15), (335622467,15), (335578657,15), (335534849,15), (335491042,15), (335447236,15), (335403432,15), (335359630,15), (335315830,15), (335272030,15), (335228233,15),
    (335184437,15), (335140642,15), (335096849,15), (335053058,15), (335009268,15), (334965479,15), (334921693,15), (334877907,15), (334834124,15), (334790342,15), (334746561,15), (334702782,15), (334659004,15), (334615228,15), (334571454,15), (334527681,15),
    (334483910,15), (334440140,15), (334396371,15), (334352605,15), (334308840,15), (334265076,15), (334221314,15), (334177553,15), (334133794,15), (334090037,15), (334046281,15), (334002526,15), (333958774,15), (333915022,15), (333871273,15), (333827524,15),
    (333783778,15), (333740033,15), (333696289,15), (333652547,15), (333608806,15), (333565067,15), (333521330,15), (333477594,15), (333433860,15), (333390127,15), (333346396,15), (333302666,15), (333258938,15), (333215211,15), (333171486,15), (333127763,15),
    (333084041,15), (333040320,15), (332996601,15), (332952884,15), (332909168,15), (332865454,15), (332821741,15), (332778030,15), (332734320,15), (332690612,15), (332646905,15), (332603200,15), (332559497,15), (332515795,15), (332472094,15), (332428396,15),
    (332384698,15), (332341002,15), (332297308,15), (332253615,15), (332209924,15), (332166235,15), (332122546,15), (332078860,15), (332035175,15), (331991491,15), (331947809,15), (331904129,15), (331860450,15), (331816773,15), (331773097,15), (331729423,15),
    (331685750,15), (331642079,15), (331598409,15), (331554741,15), (331511074,15), (331467409,15), (331423746,15), (331380084,15), (331336424,15), (331292765,15), (331249107,15), (331205452,15), (331161797,15), (331118145,15), (331074493,15), (331030844,15),
    (330987196,15), (330943549,15), (330899904,15), (330856260,15), (330812619,15), (330768978,15), (330725339,15), (330681702,15), (330638066,15), (330594432,15), (330550799,15), (330507168,15), (330463538,15), (330419910,15), (330376283,15), (330332658,15),
    (330289035,15), (330245413,15), (330201792,15), (330158173,15), (330114556,15), (330070940,15), (330027326,15), (329983713,15), (329940102,15), (329896492,15), (329852884,15), (329809277,15), (329765672,15), (329722069,15), (329678467,15), (329634866,15),
    (329591267,15), (329547670,15), (329504074,15), (329460480,15), (329416887,15), (329373295,15), (329329706,15), (329286117,15), (329242531,15), (329198946,15), (329155362,15), (329111780,15), (329068199,15), (329024620,15), (328981043,15), (328937467,15),
    (328893893,15), (328850320,15), (328806748,15), (328763178,15), (328719610,15), (328676043,15), (328632478,15), (328588915,15), (328545352,15), (328501792,15), (328458233,15), (328414675,15), (328371119,15), (328327565,15), (328284012,15), (328240460,15),
    (328196910,15), (328153362,15), (328109815,15), (328066270,15), (328022726,15), (327979184,15), (327935643,15), (327892104,15), (327848566,15), (327805030,15), (327761496,15), (327717963,15), (327674431,15), (327630901,15), (327587373,15), (327543846,15),
    (327500320,15), (327456797,15), (327413274,15), (327369754,15), (327326234,15), (327282717,15), (327239200,15), (327195686,15), (327152173,15), (327108661,15), (327065151,15), (327021642,15), (326978135,15), (326934630,15), (326891126,15), (326847623,15),
    (326804122,15), (326760623,15), (326717125,15), (326673629,15), (326630134,15), (326586641,15), (326543149,15), (326499659,15), (326456170,15), (326412683,15), (326369198,15), (326325713,15), (326282231,15), (326238750,15), (326195270,15), (326151792,15),
    (326108316,15), (326064841,15), (326021368,15), (325977896,15), (325934426,15), (325890957,15), (325847489,15), (325804024,15), (325760560,15), (325717097,15), (325673636,15), (325630176,15), (325586718,15), (325543261,15), (325499806,15), (325456353,15),
    (325412901,15), (325369450,15), (325326001,15), (325282554,15), (325239108,15), (325195664,15), (325152221,15), (325108780,15), (325065340,15), (325021902,15), (324978465,15), (324935030,15), (324891596,15), (324848164,15), (324804733,15), (324761304,15),
    (324717876,15), (324674450,15), (324631026,15), (324587603,15), (324544181,15), (324500761,15), (324457343,15), (324413926,15), (324370511,15), (324327097,15), (324283685,15), (324240274,15), (324196865,15), (324153457,15), (324110051,15), (324066646,15),
    (324023243,15), (323979841,15), (323936441,15), (323893042,15), (323849645,15), (323806250,15), (323762856,15), (323719463,15), (323676072,15), (323632683,15), (323589295,15), (323545908,15), (323502523,15), (323459140,15), (323415758,15), (323372378,15),
    (323328999,15), (323285622,15), (323242246,15), (323198872,15), (323155499,15), (323112128,15), (323068758,15), (323025390,15), (322982024,15), (322938659,15), (322895295,15), (322851933,15), (322808572,15), (322765213,15), (322721856,15), (322678500,15),
    (322635146,15), (322591793,15), (322548441,15), (322505091,15), (322461743,15), (322418396,15), (322375051,15), (322331707,15), (322288365,15), (322245024,15), (322201685,15), (322158347,15), (322115011,15), (322071676,15), (322028343,15), (321985012,15),
    (321941682,15), (321898353,15), (321855026,15), (321811700,15), (321768376,15), (321725054,15), (321681733,15), (321638414,15), (321595096,15), (321551779,15), (321508464,15), (321465151,15), (321421839,15), (321378529,15), (321335220,15), (321291913,15),
    (321248607,15), (321205303,15), (321162000,15), (321118699,15), (321075399,15), (321032101,15), (320988804,15), (320945509,15), (320902215,15), (320858923,15), (320815633,15), (320772344,15), (320729056,15), (320685770,15), (320642485,15), (320599202,15),
    (320555921,15), (320512641,15), (320469363,15), (320426086,15), (320382810,15), (320339536,15), (320296264,15), (320252993,15), (320209724,15), (320166456,15), (320123190,15), (320079925,15), (320036662,15), (319993400,15), (319950140,15), (319906881,15),
    (319863624,15), (319820368,15), (319777114,15), (319733861,15), (319690610,15), (319647361,15), (319604112,15), (319560866,15), (319517621,15), (319474377,15), (319431135,15), (319387895,15), (319344656,15), (319301418,15), (319258182,15), (319214948,15),
    (319171715,15), (319128483,15), (319085254,15), (319042025,15), (318998798,15), (318955573,15), (318912349,15), (318869127,15), (318825906,15), (318782687,15), (318739469,15), (318696253,15), (318653038,15), (318609825,15), (318566613,15), (318523403,15),
    (318480194,15), (318436987,15), (318393781,15), (318350577,15), (318307374,15), (318264173,15), (318220973,15), (318177775,15), (318134579,15), (318091384,15), (318048190,15), (318004998,15), (317961808,15), (317918619,15), (317875431,15), (317832245,15),
    (317789061,15), (317745878,15), (317702696,15), (317659516,15), (317616338,15), (317573161,15), (317529985,15), (317486811,15), (317443639,15), (317400468,15), (317357299,15), (317314131,15), (317270965,15), (317227800,15), (317184637,15), (317141475,15),
    (317098314,15), (317055156,15), (317011998,15), (316968843,15), (316925688,15), (316882536,15), (316839384,15), (316796235,15), (316753087,15), (316709940,15), (316666795,15), (316623651,15), (316580509,15), (316537368,15), (316494229,15), (316451091,15),
    (316407955,15), (316364821,15), (316321688,15), (316278556,15), (316235426,15), (316192297,15), (316149170,15), (316106045,15), (316062921,15), (316019798,15), (315976677,15), (315933558,15), (315890440,15), (315847323,15), (315804208,15), (315761095,15),
    (315717983,15), (315674872,15), (315631764,15), (315588656,15), (315545550,15), (315502446,15), (315459343,15), (315416241,15), (315373142,15), (315330043,15), (315286946,15), (315243851,15), (315200757,15), (315157665,15), (315114574,15), (315071485,15),
    (315028397,15), (314985310,15), (314942226,15), (314899142,15), (314856061,15), (314812980,15), (314769902,15), (314726824,15), (314683748,15), (314640674,15), (314597601,15), (314554530,15), (314511461,15), (314468392,15), (314425326,15), (314382260,15),
    (314339197,15), (314296134,15), (314253074,15), (314210015,15), (314166957,15), (314123901,15), (314080846,15), (314037793,15), (313994741,15), (313951691,15), (313908642,15), (313865595,15), (313822550,15), (313779506,15), (313736463,15), (313693422,15),
    (313650382,15), (313607344,15), (313564308,15), (313521272,15), (313478239,15), (313435207,15), (313392176,15), (313349147,15), (313306120,15), (313263093,15), (313220069,15), (313177046,15), (313134024,15), (313091004,15), (313047986,15), (313004969,15),
    (312961953,15), (312918939,15), (312875927,15), (312832916,15), (312789906,15), (312746898,15), (312703891,15), (312660886,15), (312617883,15), (312574881,15), (312531880,15), (312488881,15), (312445884,15), (312402888,15), (312359894,15), (312316901,15),
    (312273909,15), (312230919,15), (312187931,15), (312144944,15), (312101958,15), (312058974,15), (312015992,15), (311973011,15), (311930031,15), (311887053,15), (311844077,15), (311801102,15), (311758128,15), (311715157,15), (311672186,15), (311629217,15),
    (311586250,15), (311543284,15), (311500319,15), (311457356,15), (311414395,15), (311371435,15), (311328477,15), (311285520,15), (311242564,15), (311199610,15), (311156658,15), (311113707,15), (311070757,15), (311027809,15), (310984863,15), (310941918,15),
    (310898975,15), (310856033,15), (310813092,15), (310770153,15), (310727216,15), (310684280,15), (310641346,15), (310598413,15), (310555481,15), (310512551,15), (310469623,15), (310426696,15), (310383771,15), (310340847,15), (310297924,15), (310255003,15),
    (310212084,15), (310169166,15), (310126249,15), (310083334,15), (310040421,15), (309997509,15), (309954599,15), (309911690,15), (309868782,15), (309825876,15), (309782972,15), (309740069,15), (309697167,15), (309654267,15), (309611369,15), (309568472,15),
    (309525577,15), (309482683,15), (309439790,15), (309396899,15), (309354010,15), (309311122,15), (309268235,15), (309225350,15), (309182467,15), (309139585,15), (309096704,15), (309053825,15), (309010948,15), (308968072,15), (308925197,15), (308882324,15),
    (308839453,15), (308796583,15), (308753714,15), (308710847,15), (308667982,15), (308625118,15), (308582255,15), (308539394,15), (308496535,15), (308453677,15), (308410820,15), (308367965,15), (308325111,15), (308282259,15), (308239409,15), (308196560,15),
    (308153712,15), (308110866,15), (308068021,15), (308025178,15), (307982337,15), (307939497,15), (307896658,15), (307853821,15), (307810985,15), (307768151,15), (307725319,15), (307682487,15), (307639658,15), (307596830,15), (307554003,15), (307511178,15),
    (307468354,15), (307425532,15), (307382711,15), (307339892,15), (307297075,15), (307254258,15), (307211444,15), (307168630,15), (307125819,15), (307083009,15), (307040200,15), (306997393,15), (306954587,15), (306911783,15), (306868980,15), (306826179,15),
    (306783379,15), (306740581,15), (306697784,15), (306654988,15), (306612195,15), (306569402,15), (306526612,15), (306483822,15), (306441034,15), (306398248,15), (306355463,15), (306312680,15), (306269898,15), (306227118,15), (306184339,15), (306141561,15),
    (306098785,15), (306056011,15), (306013238,15), (305970467,15), (305927697,15), (305884928,15), (305842161,15), (305799396,15), (305756632,15), (305713870,15), (305671109,15), (305628349,15), (305585591,15), (305542835,15), (305500080,15), (305457326,15),
    (305414574,15), (305371823,15), (305329074,15), (305286327,15), (305243581,15), (305200836,15), (305158093,15), (305115351,15), (305072611,15), (305029873,15), (304987136,15), (304944400,15), (304901666,15), (304858933,15), (304816202,15), (304773472,15),
    (304730744,15), (304688017,15), (304645292,15), (304602568,15), (304559846,15), (304517125,15), (304474406,15), (304431688,15), (304388972,15), (304346257,15), (304303544,15), (304260832,15), (304218122,15), (304175413,15), (304132705,15), (304090000,15),
    (304047295,15), (304004592,15), (303961891,15), (303919191,15), (303876492,15), (303833796,15), (303791100,15), (303748406,15), (303705714,15), (303663023,15), (303620333,15), (303577645,15), (303534958,15), (303492273,15), (303449590,15), (303406908,15),
    (303364227,15), (303321548,15), (303278870,15), (303236194,15), (303193520,15), (303150846,15), (303108175,15), (303065505,15), (303022836,15), (302980169,15), (302937503,15), (302894839,15), (302852176,15), (302809515,15), (302766855,15), (302724197,15),
    (302681540,15), (302638884,15), (302596231,15), (302553578,15), (302510927,15), (302468278,15), (302425630,15), (302382984,15), (302340339,15), (302297695,15), (302255053,15), (302212413,15), (302169774,15), (302127136,15), (302084500,15), (302041866,15),
    (301999233,15), (301956601,15), (301913971,15), (301871342,15), (301828715,15), (301786089,15), (301743465,15), (301700843,15), (301658221,15), (301615602,15), (301572983,15), (301530367,15), (301487751,15), (301445138,15), (301402525,15), (301359915,15),
    (301317305,15), (301274697,15), (301232091,15), (301189486,15), (301146883,15), (301104281,15), (301061680,15), (301019081,15), (300976484,15), (300933888,15), (300891293,15), (300848700,15), (300806109,15), (300763519,15), (300720930,15), (300678343,15),
    (300635758,15), (300593173,15), (300550591,15), (300508010,15), (300465430,15), (300422852,15), (300380275,15), (300337700,15), (300295126,15), (300252554,15), (300209983,15), (300167413,15), (300124846,15), (300082279,15), (300039714,15), (299997151,15),
    (299954589,15), (299912029,15), (299869470,15), (299826912,15), (299784356,15), (299741802,15), (299699249,15), (299656697,15), (299614147,15), (299571598,15), (299529051,15), (299486506,15), (299443961,15), (299401419,15), (299358878,15), (299316338,15),
    (299273800,15), (299231263,15), (299188728,15), (299146194,15), (299103661,15), (299061131,15), (299018601,15), (298976073,15), (298933547,15), (298891022,15), (298848498,15), (298805976,15), (298763456,15), (298720937,15), (298678419,15), (298635903,15),
    (298593389,15), (298550876,15), (298508364,15), (298465854,15), (298423345,15), (298380838,15), (298338332,15), (298295828,15), (298253325,15), (298210824,15), (298168324,15), (298125826,15), (298083329,15), (298040833,15), (297998340,15), (297955847,15),
    (297913356,15), (297870867,15), (297828379,15), (297785892,15), (297743407,15), (297700924,15), (297658441,15), (297615961,15), (297573482,15), (297531004,15), (297488528,15), (297446053,15), (297403580,15), (297361108,15), (297318638,15), (297276169,15),
    (297233702,15), (297191236,15), (297148771,15), (297106308,15), (297063847,15), (297021387,15), (296978929,15), (296936472,15), (296894016,15), (296851562,15), (296809109,15), (296766658,15), (296724209,15), (296681760,15), (296639314,15), (296596869,15),
    (296554425,15), (296511983,15), (296469542,15), (296427102,15), (296384665,15), (296342228,15), (296299793,15), (296257360,15), (296214928,15), (296172497,15), (296130068,15), (296087641,15), (296045215,15), (296002790,15), (295960367,15), (295917946,15),
    (295875525,15), (295833107,15), (295790689,15), (295748274,15), (295705859,15), (295663447,15), (295621035,15), (295578625,15), (295536217,15), (295493810,15), (295451405,15), (295409001,15), (295366598,15), (295324197,15), (295281798,15), (295239400,15),
    (295197003,15), (295154608,15), (295112214,15), (295069822,15), (295027431,15), (294985042,15), (294942654,15), (294900268,15), (294857883,15), (294815500,15), (294773118,15), (294730737,15), (294688358,15), (294645981,15), (294603605,15), (294561230,15),
    (294518857,15), (294476486,15), (294434116,15), (294391747,15), (294349380,15), (294307014,15), (294264650,15), (294222287,15), (294179926,15), (294137566,15), (294095207,15), (294052851,15), (294010495,15), (293968141,15), (293925789,15), (293883438,15),
    (293841088,15), (293798740,15), (293756393,15), (293714048,15), (293671705,15), (293629362,15), (293587022,15), (293544682,15), (293502345,15), (293460008,15), (293417673,15), (293375340,15), (293333008,15), (293290678,15), (293248349,15), (293206021,15),
    (293163695,15), (293121370,15), (293079047,15), (293036726,15), (292994405,15), (292952087,15), (292909769,15), (292867454,15), (292825139,15), (292782827,15), (292740515,15), (292698205,15), (292655897,15), (292613590,15), (292571284,15), (292528980,15),
    (292486678,15), (292444377,15), (292402077,15), (292359779,15), (292317482,15), (292275187,15), (292232893,15), (292190601,15), (292148310,15), (292106020,15), (292063733,15), (292021446,15), (291979161,15), (291936878,15), (291894596,15), (291852315,15),
    (291810036,15), (291767758,15), (291725482,15), (291683207,15), (291640934,15), (291598662,15), (291556392,15), (291514123,15), (291471856,15), (291429590,15), (291387325,15), (291345062,15), (291302801,15), (291260541,15), (291218282,15), (291176025,15),
    (291133769,15), (291091515,15), (291049262,15), (291007011,15), (290964761,15), (290922513,15), (290880266,15), (290838021,15), (290795777,15), (290753534,15), (290711293,15), (290669053,15), (290626815,15), (290584579,15), (290542343,15), (290500110,15),
    (290457878,15), (290415647,15), (290373417,15), (290331190,15), (290288963,15), (290246738,15), (290204515,15), (290162293,15), (290120072,15), (290077853,15), (290035635,15), (289993419,15), (289951205,15), (289908991,15), (289866779,15), (289824569,15),
    (289782360,15), (289740153,15), (289697947,15), (289655743,15), (289613540,15), (289571338,15), (289529138,15), (289486939,15), (289444742,15), (289402546,15), (289360352,15), (289318159,15), (289275968,15), (289233778,15), (289191590,15), (289149403,15),
    (289107217,15), (289065033,15), (289022851,15), (288980670,15), (288938490,15), (288896312,15), (288854135,15), (288811960,15), (288769786,15), (288727614,15), (288685443,15), (288643274,15), (288601106,15), (288558939,15), (288516774,15), (288474610,15),
    (288432448,15), (288390288,15), (288348129,15), (288305971,15), (288263815,15), (288221660,15), (288179506,15), (288137354,15), (288095204,15), (288053055,15), (288010908,15), (287968761,15), (287926617,15), (287884474,15), (287842332,15), (287800192,15),
    (287758053,15), (287715916,15), (287673780,15), (287631645,15), (287589512,15), (287547381,15), (287505251,15), (287463122,15), (287420995,15), (287378870,15), (287336745,15), (287294623,15), (287252501,15), (287210382,15), (287168263,15), (287126146,15),
    (287084031,15), (287041917,15), (286999804,15), (286957693,15), (286915584,15), (286873476,15), (286831369,15), (286789264,15), (286747160,15), (286705057,15), (286662957,15), (286620857,15), (286578759,15), (286536663,15), (286494568,15), (286452474,15),
    (286410382,15), (286368291,15), (286326202,15), (286284114,15), (286242028,15), (286199943,15), (286157860,15), (286115778,15), (286073697,15), (286031618,15), (285989541,15), (285947464,15), (285905390,15), (285863316,15), (285821245,15), (285779174,15),
    (285737106,15), (285695038,15), (285652972,15), (285610908,15), (285568845,15), (285526783,15), (285484723,15), (285442664,15), (285400607,15), (285358551,15), (285316497,15), (285274444,15), (285232393,15), (285190343,15), (285148294,15), (285106247,15),
    (285064202,15), (285022157,15), (284980115,15), (284938073,15), (284896034,15), (284853995,15), (284811959,15), (284769923,15), (284727889,15), (284685857,15), (284643826,15), (284601796,15), (284559768,15), (284517741,15), (284475716,15), (284433692,15),
    (284391670,15), (284349649,15), (284307629,15), (284265611,15), (284223595,15), (284181580,15), (284139566,15), (284097554,15), (284055543,15), (284013534,15), (283971526,15), (283929520,15), (283887515,15), (283845511,15), (283803509,15), (283761509,15),
    (283719510,15), (283677512,15), (283635516,15), (283593521,15), (283551528,15), (283509536,15), (283467545,15), (283425556,15), (283383569,15), (283341583,15), (283299598,15), (283257615,15), (283215633,15), (283173653,15), (283131674,15), (283089697,15),
    (283047721,15), (283005746,15), (282963773,15), (282921802,15), (282879832,15), (282837863,15), (282795896,15), (282753930,15), (282711966,15), (282670003,15), (282628041,15), (282586082,15), (282544123,15), (282502166,15), (282460210,15), (282418256,15),
    (282376303,15), (282334352,15), (282292402,15), (282250454,15), (282208507,15), (282166561,15), (282124617,15), (282082675,15), (282040734,15), (281998794,15), (281956856,15), (281914919,15), (281872984,15), (281831050,15), (281789117,15), (281747186,15),
    (281705257,15), (281663329,15), (281621402,15), (281579477,15), (281537553,15), (281495631,15), (281453710,15), (281411790,15), (281369872,15), (281327956,15), (281286041,15), (281244127,15), (281202215,15), (281160304,15), (281118395,15), (281076487,15),
    (281034581,15), (280992676,15), (280950772,15), (280908870,15), (280866969,15), (280825070,15), (280783173,15), (280741276,15), (280699381,15), (280657488,15), (280615596,15), (280573706,15), (280531817,15), (280489929,15), (280448043,15), (280406158,15),
    (280364275,15), (280322393,15), (280280513,15), (280238634,15), (280196756,15), (280154880,15), (280113005,15), (280071132,15), (280029261,15), (279987390,15), (279945521,15), (279903654,15), (279861788,15), (279819924,15), (279778061,15), (279736199,15),
    (279694339,15), (279652480,15), (279610623,15), (279568767,15), (279526913,15), (279485060,15), (279443208,15), (279401358,15), (279359509,15), (279317662,15), (279275817,15), (279233972,15), (279192129,15), (279150288,15), (279108448,15), (279066609,15),
    (279024772,15), (278982937,15), (278941103,15), (278899270,15), (278857439,15), (278815609,15), (278773780,15), (278731953,15), (278690128,15), (278648304,15), (278606481,15), (278564660,15), (278522840,15), (278481022,15), (278439205,15), (278397389,15),
    (278355575,15), (278313763,15), (278271952,15), (278230142,15), (278188334,15), (278146527,15), (278104722,15), (278062918,15), (278021115,15), (277979314,15), (277937515,15), (277895717,15), (277853920,15), (277812125,15), (277770331,15), (277728538,15),
    (277686747,15), (277644958,15), (277603170,15), (277561383,15), (277519598,15), (277477814,15), (277436032,15), (277394251,15), (277352472,15), (277310694,15), (277268917,15), (277227142,15), (277185368,15), (277143596,15), (277101825,15), (277060056,15),
    (277018288,15), (276976522,15), (276934757,15), (276892993,15), (276851231,15), (276809470,15), (276767711,15), (276725953,15), (276684197,15), (276642442,15), (276600688,15), (276558936,15), (276517185,15), (276475436,15), (276433688,15), (276391942,15),
    (276350197,15), (276308454,15), (276266712,15), (276224971,15), (276183232,15), (276141494,15), (276099758,15), (276058023,15), (276016290,15), (275974558,15), (275932827,15), (275891098,15), (275849371,15), (275807644,15), (275765920,15), (275724196,15),
    (275682474,15), (275640754,15), (275599035,15), (275557317,15), (275515601,15), (275473886,15), (275432173,15), (275390461,15), (275348751,15), (275307042,15), (275265334,15), (275223628,15), (275181924,15), (275140220,15), (275098519,15), (275056818,15),
    (275015119,15), (274973422,15), (274931726,15), (274890031,15), (274848338,15), (274806646,15), (274764956,15), (274723267,15), (274681580,15), (274639894,15), (274598209,15), (274556526,15), (274514844,15), (274473164,15), (274431485,15), (274389808,15),
    (274348132,15), (274306457,15), (274264784,15), (274223112,15), (274181442,15), (274139773,15), (274098106,15), (274056440,15), (274014776,15), (273973113,15), (273931451,15), (273889791,15), (273848132,15), (273806475,15), (273764819,15), (273723164,15),
    (273681511,15), (273639860,15), (273598210,15), (273556561,15), (273514914,15), (273473268,15), (273431623,15), (273389980,15), (273348339,15), (273306699,15), (273265060,15), (273223423,15), (273181787,15), (273140152,15), (273098520,15), (273056888,15),
    (273015258,15), (272973629,15), (272932002,15), (272890376,15), (272848752,15), (272807129,15), (272765507,15), (272723887,15), (272682269,15), (272640651,15), (272599036,15), (272557421,15), (272515808,15), (272474197,15), (272432587,15), (272390978,15),
    (272349371,15), (272307765,15), (272266161,15), (272224558,15), (272182957,15), (272141356,15), (272099758,15), (272058161,15), (272016565,15), (271974971,15), (271933378,15), (271891786,15), (271850196,15), (271808608,15), (271767020,15), (271725435,15),
    (271683850,15), (271642267,15), (271600686,15), (271559106,15), (271517527,15), (271475950,15), (271434374,15), (271392800,15), (271351227,15), (271309656,15), (271268086,15), (271226517,15), (271184950,15), (271143384,15), (271101820,15), (271060257,15),
    (271018696,15), (270977136,15), (270935577,15), (270894020,15), (270852464,15), (270810910,15), (270769357,15), (270727806,15), (270686256,15), (270644707,15), (270603160,15), (270561614,15), (270520070,15), (270478527,15), (270436985,15), (270395445,15),
    (270353907,15), (270312370,15), (270270834,15), (270229299,15), (270187767,15), (270146235,15), (270104705,15), (270063176,15), (270021649,15), (269980123,15), (269938599,15), (269897076,15), (269855555,15), (269814035,15), (269772516,15), (269730999,15),
    (269689483,15), (269647969,15), (269606456,15), (269564944,15), (269523434,15), (269481926,15), (269440418,15), (269398913,15), (269357408,15), (269315905,15), (269274404,15), (269232904,15), (269191405,15), (269149908,15), (269108412,15), (269066918,15),
    (269025425,15), (268983933,15), (268942443,15), (268900954,15), (268859467,15), (268817981,15), (268776497,15), (268735014,15), (268693532,15), (268652052,15), (268610573,15), (268569096,15), (268527620,15), (268486146,15), (268444673,15), (268403201,15),
    (268361731,15), (268320262,15), (268278795,15), (268237329,15), (268195864,15), (268154401,15), (268112940,15), (268071479,15), (268030021,15), (267988563,15), (267947107,15), (267905653,15), (267864200,15), (267822748,15), (267781298,15), (267739849,15),
    (267698401,15), (267656955,15), (267615511,15), (267574068,15), (267532626,15), (267491186,15), (267449747,15), (267408309,15), (267366873,15), (267325439,15), (267284006,15), (267242574,15), (267201143,15), (267159715,15), (267118287,15), (267076861,15),
    (267035436,15), (266994013,15), (266952591,15), (266911171,15), (266869752,15), (266828334,15), (266786918,15), (266745503,15), (266704090,15), (266662678,15), (266621268,15), (266579859,15), (266538451,15), (266497045,15), (266455640,15), (266414237,15),
    (266372835,15), (266331434,15), (266290035,15), (266248638,15), (266207241,15), (266165847,15), (266124453,15), (266083061,15), (266041671,15), (266000282,15), (265958894,15), (265917508,15), (265876123,15), (265834739,15), (265793357,15), (265751976,15),
    (265710597,15), (265669219,15), (265627843,15), (265586468,15), (265545095,15), (265503723,15), (265462352,15), (265420983,15), (265379615,15), (265338248,15), (265296883,15), (265255520,15), (265214157,15), (265172797,15), (265131437,15), (265090079,15),
    (265048723,15), (265007368,15), (264966014,15), (264924662,15), (264883311,15), (264841962,15), (264800614,15), (264759267,15), (264717922,15), (264676578,15), (264635236,15), (264593895,15), (264552555,15), (264511217,15), (264469880,15), (264428545,15),
    (264387211,15), (264345879,15), (264304548,15), (264263218,15), (264221890,15), (264180563,15), (264139238,15), (264097914,15), (264056592,15), (264015271,15), (263973951,15), (263932633,15), (263891316,15), (263850000,15), (263808686,15), (263767374,15),
    (263726063,15), (263684753,15), (263643444,15), (263602137,15), (263560832,15), (263519528,15), (263478225,15), (263436924,15), (263395624,15), (263354326,15), (263313029,15), (263271733,15), (263230439,15), (263189146,15), (263147855,15), (263106565,15),
    (263065276,15), (263023989,15), (262982703,15), (262941419,15), (262900136,15), (262858855,15), (262817575,15), (262776296,15), (262735019,15), (262693743,15), (262652468,15), (262611195,15), (262569924,15), (262528654,15), (262487385,15), (262446118,15),
    (262404852,15), (262363587,15), (262322324,15), (262281062,15), (262239802,15), (262198543,15), (262157286,15), (262116030,15), (262074775,15), (262033522,15), (261992270,15), (261951020,15), (261909771,15), (261868523,15), (261827277,15), (261786032,15),
    (261744789,15), (261703547,15), (261662307,15), (261621068,15), (261579830,15), (261538594,15), (261497359,15), (261456125,15), (261414893,15), (261373663,15), (261332434,15), (261291206,15), (261249979,15), (261208754,15), (261167531,15), (261126309,15),
    (261085088,15), (261043869,15), (261002651,15), (260961434,15), (260920219,15), (260879006,15), (260837793,15), (260796582,15), (260755373,15), (260714165,15), (260672958,15), (260631753,15), (260590549,15), (260549347,15), (260508146,15), (260466946,15),
    (260425748,15), (260384551,15), (260343356,15), (260302162,15), (260260970,15), (260219778,15), (260178589,15), (260137400,15), (260096214,15), (260055028,15), (260013844,15), (259972661,15), (259931480,15), (259890300,15), (259849122,15), (259807945,15),
    (259766769,15), (259725595,15), (259684422,15), (259643251,15), (259602081,15), (259560912,15), (259519745,15), (259478579,15), (259437415,15), (259396252,15), (259355090,15), (259313930,15), (259272771,15), (259231614,15), (259190458,15), (259149304,15),
    (259108151,15), (259066999,15), (259025849,15), (258984700,15), (258943552,15), (258902406,15), (258861262,15), (258820118,15), (258778977,15), (258737836,15), (258696697,15), (258655559,15), (258614423,15), (258573288,15), (258532155,15), (258491023,15),
    (258449892,15), (258408763,15), (258367636,15), (258326509,15), (258285384,15), (258244261,15), (258203139,15), (258162018,15), (258120898,15), (258079781,15), (258038664,15), (257997549,15), (257956435,15), (257915323,15), (257874212,15), (257833102,15),
    (257791994,15), (257750888,15), (257709782,15), (257668678,15), (257627576,15), (257586475,15), (257545375,15), (257504277,15), (257463180,15), (257422085,15), (257380991,15), (257339898,15), (257298807,15), (257257717,15), (257216629,15), (257175542,15),
    (257134456,15), (257093372,15), (257052289,15), (257011207,15), (256970127,15), (256929049,15), (256887972,15), (256846896,15), (256805821,15), (256764748,15), (256723677,15), (256682607,15), (256641538,15), (256600471,15), (256559405,15), (256518340,15),
    (256477277,15), (256436215,15), (256395155,15), (256354096,15), (256313038,15), (256271982,15), (256230927,15), (256189874,15), (256148822,15), (256107771,15), (256066722,15), (256025675,15), (255984628,15), (255943583,15), (255902540,15), (255861498,15),
    (255820457,15), (255779418,15), (255738380,15), (255697343,15), (255656308,15), (255615274,15), (255574242,15), (255533211,15), (255492182,15), (255451153,15), (255410127,15), (255369101,15), (255328077,15), (255287055,15), (255246034,15), (255205014,15),
    (255163996,15), (255122979,15), (255081963,15), (255040949,15), (254999937,15), (254958925,15), (254917915,15), (254876907,15), (254835900,15), (254794894,15), (254753890,15), (254712887,15), (254671885,15), (254630885,15), (254589886,15), (254548889,15),
    (254507893,15), (254466899,15), (254425906,15), (254384914,15), (254343924,15), (254302935,15), (254261947,15), (254220961,15), (254179976,15), (254138993,15), (254098011,15), (254057031,15), (254016051,15), (253975074,15), (253934097,15), (253893122,15),
    (253852149,15), (253811177,15), (253770206,15), (253729237,15), (253688269,15), (253647302,15), (253606337,15), (253565373,15), (253524411,15), (253483450,15), (253442490,15), (253401532,15), (253360576,15), (253319620,15), (253278666,15), (253237714,15),
    (253196762,15), (253155813,15), (253114864,15), (253073917,15), (253032972,15), (252992028,15), (252951085,15), (252910143,15), (252869203,15), (252828265,15), (252787328,15), (252746392,15), (252705457,15), (252664524,15), (252623593,15), (252582663,15),
    (252541734,15), (252500806,15), (252459880,15), (252418956,15), (252378032,15), (252337111,15), (252296190,15), (252255271,15), (252214353,15), (252173437,15), (252132522,15), (252091609,15), (252050697,15), (252009786,15), (251968877,15), (251927969,15),
    (251887062,15), (251846157,15), (251805254,15), (251764351,15), (251723450,15), (251682551,15), (251641653,15), (251600756,15), (251559861,15), (251518967,15), (251478074,15), (251437183,15), (251396293,15), (251355405,15), (251314518,15), (251273632,15),
    (251232748,15), (251191865,15), (251150984,15), (251110104,15), (251069225,15), (251028348,15), (250987472,15), (250946598,15), (250905725,15), (250864853,15), (250823983,15), (250783114,15), (250742246,15), (250701380,15), (250660516,15), (250619652,15),
    (250578790,15), (250537930,15), (250497071,15), (250456213,15), (250415357,15), (250374502,15), (250333648,15), (250292796,15), (250251945,15), (250211096,15), (250170248,15), (250129401,15), (250088556,15), (250047712,15), (250006870,15), (249966029,15),
    (249925189,15), (249884351,15), (249843514,15), (249802679,15), (249761845,15), (249721012,15), (249680181,15), (249639351,15), (249598522,15), (249557695,15), (249516870,15), (249476045,15), (249435222,15), (249394401,15), (249353581,15), (249312762,15),
    (249271944,15), (249231128,15), (249190314,15), (249149501,15), (249108689,15), (249067878,15), (249027069,15), (248986262,15), (248945455,15), (248904651,15), (248863847,15), (248823045,15), (248782244,15), (248741445,15), (248700647,15), (248659851,15),
    (248619055,15), (248578262,15), (248537469,15), (248496678,15), (248455889,15), (248415100,15), (248374314,15), (248333528,15), (248292744,15), (248251962,15), (248211180,15), (248170400,15), (248129622,15), (248088845,15), (248048069,15), (248007295,15),
    (247966522,15), (247925750,15), (247884980,15), (247844211,15), (247803444,15), (247762678,15), (247721914,15), (247681150,15), (247640388,15), (247599628,15), (247558869,15), (247518111,15), (247477355,15), (247436600,15), (247395847,15), (247355095,15),
    (247314344,15), (247273595,15), (247232847,15), (247192100,15), (247151355,15), (247110611,15), (247069869,15), (247029128,15), (246988388,15), (246947650,15), (246906913,15), (246866177,15), (246825443,15), (246784711,15), (246743979,15), (246703249,15),
    (246662521,15), (246621794,15), (246581068,15), (246540343,15), (246499620,15), (246458899,15), (246418179,15), (246377460,15), (246336742,15), (246296026,15), (246255311,15), (246214598,15), (246173886,15), (246133176,15), (246092467,15), (246051759,15),
    (246011052,15), (245970347,15), (245929644,15), (245888942,15), (245848241,15), (245807541,15), (245766843,15), (245726146,15), (245685451,15), (245644757,15), (245604065,15), (245563374,15), (245522684,15), (245481995,15), (245441308,15), (245400623,15),
    (245359939,15), (245319256,15), (245278574,15), (245237894,15), (245197215,15), (245156538,15), (245115862,15), (245075188,15), (245034514,15), (244993843,15), (244953172,15), (244912503,15), (244871836,15), (244831169,15), (244790504,15), (244749841,15),
    (244709179,15), (244668518,15), (244627859,15), (244587201,15), (244546544,15), (244505889,15), (244465235,15), (244424583,15), (244383932,15), (244343282,15), (244302634,15), (244261987,15), (244221341,15), (244180697,15), (244140054,15), (244099413,15),
    (244058773,15), (244018134,15), (243977497,15), (243936861,15), (243896227,15), (243855594,15), (243814962,15), (243774332,15), (243733703,15), (243693075,15), (243652449,15), (243611824,15), (243571201,15), (243530578,15), (243489958,15), (243449339,15),
    (243408721,15), (243368104,15), (243327489,15), (243286875,15), (243246263,15), (243205652,15), (243165042,15), (243124434,15), (243083827,15), (243043221,15), (243002617,15), (242962015,15), (242921413,15), (242880813,15), (242840215,15), (242799617,15),
    (242759022,15), (242718427,15), (242677834,15), (242637242,15), (242596652,15), (242556063,15), (242515475,15), (242474889,15), (242434304,15), (242393721,15), (242353139,15), (242312558,15), (242271979,15), (242231401,15), (242190825,15), (242150249,15),
    (242109676,15), (242069103,15), (242028532,15), (241987962,15), (241947394,15), (241906827,15), (241866262,15), (241825698,15), (241785135,15), (241744573,15), (241704013,15), (241663455,15), (241622898,15), (241582342,15), (241541787,15), (241501234,15),
    (241460682,15), (241420132,15), (241379583,15), (241339035,15), (241298489,15), (241257944,15), (241217401,15), (241176859,15), (241136318,15), (241095778,15), (241055240,15), (241014704,15), (240974169,15), (240933635,15), (240893102,15), (240852571,15),
    (240812041,15), (240771513,15), (240730986,15), (240690460,15), (240649936,15), (240609413,15), (240568892,15), (240528372,15), (240487853,15), (240447336,15), (240406820,15), (240366305,15), (240325792,15), (240285280,15), (240244770,15), (240204260,15),
    (240163753,15), (240123246,15), (240082741,15), (240042238,15), (240001735,15), (239961235,15), (239920735,15), (239880237,15), (239839740,15), (239799245,15), (239758751,15), (239718258,15), (239677767,15), (239637277,15), (239596789,15), (239556302,15),
    (239515816,15), (239475331,15), (239434848,15), (239394367,15), (239353887,15), (239313408,15), (239272930,15), (239232454,15), (239191979,15), (239151506,15), (239111034,15), (239070563,15), (239030094,15), (238989626,15), (238949159,15), (238908694,15),
    (238868230,15), (238827768,15), (238787307,15), (238746847,15), (238706389,15), (238665932,15), (238625477,15), (238585022,15), (238544570,15), (238504118,15), (238463668,15), (238423219,15), (238382772,15), (238342326,15), (238301881,15), (238261438,15),
    (238220996,15), (238180556,15), (238140117,15), (238099679,15), (238059243,15), (238018808,15), (237978374,15), (237937942,15), (237897511,15), (237857082,15), (237816653,15), (237776227,15), (237735801,15), (237695377,15), (237654955,15), (237614533,15),
    (237574113,15), (237533695,15), (237493278,15), (237452862,15), (237412447,15), (237372034,15), (237331623,15), (237291212,15), (237250803,15), (237210396,15), (237169990,15), (237129585,15), (237089181,15), (237048779,15), (237008378,15), (236967979,15),
    (236927581,15), (236887184,15), (236846789,15), (236806395,15), (236766003,15), (236725612,15), (236685222,15), (236644833,15), (236604446,15), (236564061,15), (236523676,15), (236483293,15), (236442912,15), (236402532,15), (236362153,15), (236321775,15),
    (236281399,15), (236241024,15), (236200651,15), (236160279,15), (236119908,15), (236079539,15), (236039171,15), (235998805,15), (235958440,15), (235918076,15), (235877713,15), (235837352,15), (235796993,15), (235756634,15), (235716277,15), (235675922,15),
    (235635567,15), (235595215,15), (235554863,15), (235514513,15), (235474164,15), (235433817,15), (235393471,15), (235353126,15), (235312783,15), (235272441,15), (235232100,15), (235191761,15), (235151423,15), (235111087,15), (235070752,15), (235030418,15),
    (234990085,15), (234949754,15), (234909425,15), (234869097,15), (234828770,15), (234788444,15), (234748120,15), (234707797,15), (234667476,15), (234627156,15), (234586837,15), (234546519,15), (234506203,15), (234465889,15), (234425576,15), (234385264,15),
    (234344953,15), (234304644,15), (234264336,15), (234224030,15), (234183725,15), (234143421,15), (234103119,15), (234062818,15), (234022518,15), (233982220,15), (233941923,15), (233901627,15), (233861333,15), (233821040,15), (233780749,15), (233740459,15),
    (233700170,15), (233659883,15), (233619597,15), (233579312,15), (233539029,15), (233498747,15), (233458466,15), (233418187,15), (233377909,15), (233337633,15), (233297358,15), (233257084,15), (233216812,15), (233176541,15), (233136271,15), (233096003,15),
    (233055736,15), (233015471,15), (232975206,15), (232934943,15), (232894682,15), (232854422,15), (232814163,15), (232773906,15), (232733650,15), (232693395,15), (232653142,15), (232612890,15), (232572639,15), (232532390,15), (232492142,15), (232451896,15),
    (232411651,15), (232371407,15), (232331165,15), (232290924,15), (232250684,15), (232210446,15), (232170209,15), (232129973,15), (232089739,15), (232049506,15), (232009274,15), (231969044,15), (231928815,15), (231888588,15), (231848362,15), (231808137,15),
    (231767914,15), (231727692,15), (231687471,15), (231647252,15), (231607034,15), (231566817,15), (231526602,15), (231486388,15), (231446176,15), (231405965,15), (231365755,15), (231325547,15), (231285340,15), (231245134,15), (231204930,15), (231164727,15),
    (231124525,15), (231084325,15), (231044126,15), (231003928,15), (230963732,15), (230923537,15), (230883344,15), (230843152,15), (230802961,15), (230762772,15), (230722584,15), (230682397,15), (230642212,15), (230602028,15), (230561845,15), (230521664,15),
    (230481484,15), (230441306,15), (230401129,15), (230360953,15), (230320778,15), (230280605,15), (230240434,15), (230200263,15), (230160094,15), (230119926,15), (230079760,15), (230039595,15), (229999432,15), (229959269,15), (229919109,15), (229878949,15),
    (229838791,15), (229798634,15), (229758479,15), (229718325,15), (229678172,15), (229638021,15), (229597871,15), (229557722,15), (229517575,15), (229477429,15), (229437284,15), (229397141,15), (229356999,15), (229316858,15), (229276719,15), (229236581,15),
    (229196445,15), (229156310,15), (229116176,15), (229076044,15), (229035913,15), (228995783,15), (228955655,15), (228915528,15), (228875402,15), (228835278,15), (228795155,15), (228755033,15), (228714913,15), (228674794,15), (228634677,15), (228594561,15),
    (228554446,15), (228514333,15), (228474221,15), (228434110,15), (228394000,15), (228353892,15), (228313786,15), (228273681,15), (228233577,15), (228193474,15), (228153373,15), (228113273,15), (228073174,15), (228033077,15), (227992981,15), (227952887,15),
    (227912794,15), (227872702,15), (227832612,15), (227792523,15), (227752435,15), (227712349,15), (227672264,15), (227632180,15), (227592098,15), (227552017,15), (227511937,15), (227471859,15), (227431782,15), (227391707,15), (227351632,15), (227311560,15),
    (227271488,15), (227231418,15), (227191349,15), (227151282,15), (227111216,15), (227071151,15), (227031088,15), (226991026,15), (226950965,15), (226910906,15), (226870848,15), (226830791,15), (226790736,15), (226750682,15), (226710630,15), (226670578,15),
    (226630529,15), (226590480,15), (226550433,15), (226510387,15), (226470343,15), (226430300,15), (226390258,15), (226350218,15), (226310178,15), (226270141,15), (226230104,15), (226190070,15), (226150036,15), (226110004,15), (226069973,15), (226029943,15),
    (225989915,15), (225949888,15), (225909862,15), (225869838,15), (225829815,15), (225789794,15), (225749774,15), (225709755,15), (225669738,15), (225629722,15), (225589707,15), (225549694,15), (225509681,15), (225469671,15), (225429661,15), (225389653,15),
    (225349647,15), (225309642,15), (225269638,15), (225229635,15), (225189634,15), (225149634,15), (225109635,15), (225069638,15), (225029642,15), (224989648,15), (224949655,15), (224909663,15), (224869672,15), (224829683,15), (224789696,15), (224749709,15),
    (224709724,15), (224669740,15), (224629758,15), (224589777,15), (224549797,15), (224509819,15), (224469842,15), (224429867,15), (224389892,15), (224349919,15), (224309948,15), (224269978,15), (224230009,15), (224190041,15), (224150075,15), (224110110,15),
    (224070147,15), (224030184,15), (223990224,15), (223950264,15), (223910306,15), (223870349,15), (223830394,15), (223790440,15), (223750487,15), (223710536,15), (223670586,15), (223630637,15), (223590690,15), (223550744,15), (223510799,15), (223470856,15),
    (223430914,15), (223390973,15), (223351034,15), (223311096,15), (223271159,15), (223231224,15), (223191290,15), (223151358,15), (223111427,15), (223071497,15), (223031568,15), (222991641,15), (222951715,15), (222911791,15), (222871868,15), (222831946,15),
    (222792025,15), (222752106,15), (222712189,15), (222672272,15), (222632357,15), (222592443,15), (222552531,15), (222512620,15), (222472710,15), (222432802,15), (222392895,15), (222352989,15), (222313085,15), (222273182,15), (222233281,15), (222193380,15),
    (222153481,15), (222113584,15), (222073688,15), (222033793,15), (221993899,15), (221954007,15), (221914116,15), (221874226,15), (221834338,15), (221794451,15), (221754566,15), (221714682,15), (221674799,15), (221634918,15), (221595037,15), (221555159,15),
    (221515281,15), (221475405,15), (221435530,15), (221395657,15), (221355785,15), (221315914,15), (221276045,15), (221236177,15), (221196310,15), (221156445,15), (221116581,15), (221076718,15), (221036857,15), (220996997,15), (220957138,15), (220917281,15),
    (220877425,15), (220837570,15), (220797717,15), (220757865,15), (220718014,15), (220678165,15), (220638317,15), (220598471,15), (220558625,15), (220518781,15), (220478939,15), (220439098,15), (220399258,15), (220359419,15), (220319582,15), (220279746,15),
    (220239912,15), (220200078,15), (220160247,15), (220120416,15), (220080587,15), (220040759,15), (220000933,15), (219961108,15), (219921284,15), (219881461,15), (219841640,15), (219801820,15), (219762002,15), (219722185,15), (219682369,15), (219642555,15),
    (219602742,15), (219562930,15), (219523120,15), (219483310,15), (219443503,15), (219403696,15), (219363891,15), (219324088,15), (219284285,15), (219244484,15), (219204685,15), (219164886,15), (219125089,15), (219085294,15), (219045499,15), (219005706,15),
    (218965915,15), (218926124,15), (218886335,15), (218846548,15), (218806761,15), (218766976,15), (218727193,15), (218687410,15), (218647629,15), (218607850,15), (218568072,15), (218528295,15), (218488519,15), (218448745,15), (218408972,15), (218369200,15),
    (218329430,15), (218289661,15), (218249894,15), (218210127,15), (218170362,15), (218130599,15), (218090837,15), (218051076,15), (218011316,15), (217971558,15), (217931801,15), (217892045,15), (217852291,15), (217812538,15), (217772787,15), (217733037,15),
    (217693288,15), (217653540,15), (217613794,15), (217574049,15), (217534306,15), (217494563,15), (217454823,15), (217415083,15), (217375345,15), (217335608,15), (217295873,15), (217256138,15), (217216406,15), (217176674,15), (217136944,15), (217097215,15),
    (217057488,15), (217017761,15), (216978037,15), (216938313,15), (216898591,15), (216858870,15), (216819151,15), (216779432,15), (216739716,15), (216700000,15), (216660286,15), (216620573,15), (216580862,15), (216541151,15), (216501443,15), (216461735,15),
    (216422029,15), (216382324,15), (216342621,15), (216302919,15), (216263218,15), (216223518,15), (216183820,15), (216144123,15), (216104428,15), (216064734,15), (216025041,15), (215985349,15), (215945659,15), (215905970,15), (215866283,15), (215826597,15),
    (215786912,15), (215747228,15), (215707546,15), (215667865,15), (215628186,15), (215588508,15), (215548831,15), (215509156,15), (215469481,15), (215429809,15), (215390137,15), (215350467,15), (215310798,15), (215271131,15), (215231464,15), (215191800,15),
    (215152136,15), (215112474,15), (215072813,15), (215033154,15), (214993495,15), (214953839,15), (214914183,15), (214874529,15), (214834876,15), (214795224,15), (214755574,15), (214715925,15), (214676278,15), (214636632,15), (214596987,15), (214557343,15),
    (214517701,15), (214478060,15), (214438421,15), (214398782,15), (214359146,15), (214319510,15), (214279876,15), (214240243,15), (214200611,15), (214160981,15), (214121352,15), (214081725,15), (214042098,15), (214002474,15), (213962850,15), (213923228,15),
    (213883607,15), (213843987,15), (213804369,15), (213764752,15), (213725136,15), (213685522,15), (213645909,15), (213606298,15), (213566687,15), (213527078,15), (213487471,15), (213447864,15), (213408259,15), (213368656,15), (213329053,15), (213289452,15),
    (213249853,15), (213210254,15), (213170657,15), (213131062,15), (213091467,15), (213051874,15), (213012283,15), (212972692,15), (212933103,15), (212893516,15), (212853929,15), (212814344,15), (212774761,15), (212735178,15), (212695597,15), (212656017,15),
    (212616439,15), (212576862,15), (212537286,15), (212497712,15), (212458139,15), (212418567,15), (212378996,15), (212339427,15), (212299859,15), (212260293,15), (212220728,15), (212181164,15), (212141602,15), (212102040,15), (212062481,15), (212022922,15),
    (211983365,15), (211943809,15), (211904255,15), (211864701,15), (211825149,15), (211785599,15), (211746050,15), (211706502,15), (211666955,15), (211627410,15), (211587866,15), (211548323,15), (211508782,15), (211469242,15), (211429704,15), (211390166,15),
    (211350630,15), (211311096,15), (211271562,15), (211232030,15), (211192500,15), (211152970,15), (211113442,15), (211073916,15), (211034390,15), (210994866,15), (210955344,15), (210915822,15), (210876302,15), (210836783,15), (210797266,15), (210757750,15),
    (210718235,15), (210678722,15), (210639210,15), (210599699,15), (210560189,15), (210520681,15), (210481174,15), (210441669,15), (210402165,15), (210362662,15), (210323160,15), (210283660,15), (210244161,15), (210204664,15), (210165167,15), (210125672,15),
    (210086179,15), (210046687,15), (210007196,15), (209967706,15), (209928218,15), (209888731,15), (209849245,15), (209809761,15), (209770278,15), (209730796,15), (209691316,15), (209651837,15), (209612359,15), (209572883,15), (209533408,15), (209493934,15),
    (209454461,15), (209414990,15), (209375520,15), (209336052,15), (209296585,15), (209257119,15), (209217655,15), (209178191,15), (209138730,15), (209099269,15), (209059810,15), (209020352,15), (208980895,15), (208941440,15), (208901986,15), (208862534,15),
    (208823082,15), (208783632,15), (208744184,15), (208704736,15), (208665290,15), (208625846,15), (208586402,15), (208546960,15), (208507520,15), (208468080,15), (208428642,15), (208389205,15), (208349770,15), (208310336,15), (208270903,15), (208231472,15),
    (208192041,15), (208152613,15), (208113185,15), (208073759,15), (208034334,15), (207994910,15), (207955488,15), (207916067,15), (207876648,15), (207837229,15), (207797812,15), (207758397,15), (207718982,15), (207679569,15), (207640158,15), (207600747,15),
    (207561338,15), (207521931,15), (207482524,15), (207443119,15), (207403715,15), (207364313,15), (207324912,15), (207285512,15), (207246113,15), (207206716,15), (207167320,15), (207127926,15), (207088533,15), (207049141,15), (207009750,15), (206970361,15),
    (206930973,15), (206891586,15), (206852201,15), (206812817,15), (206773434,15), (206734053,15), (206694673,15), (206655294,15), (206615917,15), (206576541,15), (206537166,15), (206497793,15), (206458420,15), (206419050,15), (206379680,15), (206340312,15),
    (206300945,15), (206261579,15), (206222215,15), (206182852,15), (206143491,15), (206104130,15), (206064771,15), (206025414,15), (205986057,15), (205946702,15), (205907349,15), (205867996,15), (205828645,15), (205789295,15), (205749947,15), (205710600,15),
    (205671254,15), (205631910,15), (205592566,15), (205553225,15), (205513884,15), (205474545,15), (205435207,15), (205395870,15), (205356535,15), (205317201,15), (205277868,15), (205238537,15), (205199207,15), (205159878,15), (205120551,15), (205081225,15),
    (205041900,15), (205002577,15), (204963254,15), (204923934,15), (204884614,15), (204845296,15), (204805979,15), (204766663,15), (204727349,15), (204688036,15), (204648725,15), (204609414,15), (204570105,15), (204530798,15), (204491491,15), (204452186,15),
    (204412883,15), (204373580,15), (204334279,15), (204294979,15), (204255681,15), (204216384,15), (204177088,15), (204137793,15), (204098500,15), (204059208,15), (204019917,15), (203980628,15), (203941340,15), (203902053,15), (203862768,15), (203823484,15),
    (203784201,15), (203744920,15), (203705640,15), (203666361,15), (203627083,15), (203587807,15), (203548532,15), (203509259,15), (203469987,15), (203430716,15), (203391446,15), (203352178,15), (203312911,15), (203273645,15), (203234381,15), (203195118,15),
    (203155856,15), (203116596,15), (203077336,15), (203038079,15), (202998822,15), (202959567,15), (202920313,15), (202881061,15), (202841809,15), (202802559,15), (202763311,15), (202724063,15), (202684817,15), (202645573,15), (202606329,15), (202567087,15),
    (202527847,15), (202488607,15), (202449369,15), (202410132,15), (202370897,15), (202331662,15), (202292429,15), (202253198,15), (202213968,15), (202174739,15), (202135511,15), (202096285,15), (202057060,15), (202017836,15), (201978613,15), (201939392,15),
    (201900173,15), (201860954,15), (201821737,15), (201782521,15), (201743306,15), (201704093,15), (201664881,15), (201625671,15), (201586461,15), (201547253,15), (201508047,15), (201468841,15), (201429637,15), (201390434,15), (201351233,15), (201312033,15),
    (201272834,15), (201233636,15), (201194440,15), (201155245,15), (201116051,15), (201076859,15), (201037668,15), (200998478,15), (200959290,15), (200920103,15), (200880917,15), (200841733,15), (200802549,15), (200763368,15), (200724187,15), (200685008,15),
    (200645830,15), (200606653,15), (200567478,15), (200528304,15), (200489131,15), (200449960,15), (200410790,15), (200371621,15), (200332453,15), (200293287,15), (200254122,15), (200214959,15), (200175797,15), (200136636,15), (200097476,15), (200058318,15),
    (200019161,15), (199980005,15), (199940851,15), (199901697,15), (199862546,15), (199823395,15), (199784246,15), (199745098,15), (199705951,15), (199666806,15), (199627662,15), (199588520,15), (199549378,15), (199510238,15), (199471099,15), (199431962,15),
    (199392826,15), (199353691,15), (199314558,15), (199275425,15), (199236294,15), (199197165,15), (199158036,15), (199118909,15), (199079784,15), (199040659,15), (199001536,15), (198962415,15), (198923294,15), (198884175,15), (198845057,15), (198805940,15),
    (198766825,15), (198727711,15), (198688599,15), (198649487,15), (198610377,15), (198571268,15), (198532161,15), (198493055,15), (198453950,15), (198414847,15), (198375744,15), (198336643,15), (198297544,15), (198258446,15), (198219349,15), (198180253,15),
    (198141158,15), (198102065,15), (198062974,15), (198023883,15), (197984794,15), (197945706,15), (197906619,15), (197867534,15), (197828450,15), (197789367,15), (197750286,15), (197711206,15), (197672127,15), (197633050,15), (197593974,15), (197554899,15),
    (197515825,15), (197476753,15), (197437682,15), (197398612,15), (197359544,15), (197320477,15), (197281411,15), (197242347,15), (197203284,15), (197164222,15), (197125161,15), (197086102,15), (197047044,15), (197007987,15), (196968932,15), (196929878,15),
    (196890825,15), (196851774,15), (196812724,15), (196773675,15), (196734627,15), (196695581,15), (196656536,15), (196617493,15), (196578450,15), (196539409,15), (196500370,15), (196461331,15), (196422294,15), (196383258,15), (196344224,15), (196305190,15),
    (196266159,15), (196227128,15), (196188099,15), (196149071,15), (196110044,15), (196071018,15), (196031994,15), (195992972,15), (195953950,15), (195914930,15), (195875911,15), (195836893,15), (195797877,15), (195758862,15), (195719848,15), (195680836,15),
    (195641825,15), (195602815,15), (195563806,15), (195524799,15), (195485793,15), (195446788,15), (195407785,15), (195368783,15), (195329782,15), (195290783,15), (195251785,15), (195212788,15), (195173792,15), (195134798,15), (195095805,15), (195056813,15),
    (195017823,15), (194978834,15), (194939846,15), (194900860,15), (194861875,15), (194822891,15), (194783908,15), (194744927,15), (194705947,15), (194666968,15), (194627991,15), (194589015,15), (194550040,15), (194511067,15), (194472094,15), (194433124,15),
    (194394154,15), (194355186,15), (194316219,15), (194277253,15), (194238289,15), (194199325,15), (194160364,15), (194121403,15), (194082444,15), (194043486,15), (194004529,15), (193965574,15), (193926620,15), (193887667,15), (193848716,15), (193809766,15),
    (193770817,15), (193731869,15), (193692923,15), (193653978,15), (193615034,15), (193576092,15), (193537151,15), (193498211,15), (193459273,15), (193420335,15), (193381399,15), (193342465,15), (193303532,15), (193264600,15), (193225669,15), (193186739,15),
    (193147811,15), (193108884,15), (193069959,15), (193031035,15), (192992112,15), (192953190,15), (192914270,15), (192875351,15), (192836433,15), (192797516,15), (192758601,15), (192719687,15), (192680775,15), (192641863,15), (192602953,15), (192564045,15),
    (192525137,15), (192486231,15), (192447326,15), (192408423,15), (192369521,15), (192330620,15), (192291720,15), (192252822,15), (192213925,15), (192175029,15), (192136134,15), (192097241,15), (192058349,15), (192019459,15), (191980569,15), (191941681,15),
    (191902795,15), (191863909,15), (191825025,15), (191786142,15), (191747261,15), (191708380,15), (191669501,15), (191630624,15), (191591747,15), (191552872,15), (191513998,15), (191475126,15), (191436255,15), (191397385,15), (191358516,15), (191319649,15),
    (191280783,15), (191241918,15), (191203055,15), (191164192,15), (191125331,15), (191086472,15), (191047614,15), (191008757,15), (190969901,15), (190931046,15), (190892193,15), (190853341,15), (190814491,15), (190775642,15), (190736794,15), (190697947,15),
    (190659102,15), (190620258,15), (190581415,15), (190542573,15), (190503733,15), (190464894,15), (190426056,15), (190387220,15), (190348385,15), (190309551,15), (190270719,15), (190231888,15), (190193058,15), (190154229,15), (190115402,15), (190076576,15),
    (190037751,15), (189998927,15), (189960105,15), (189921284,15), (189882465,15), (189843647,15), (189804830,15), (189766014,15), (189727199,15), (189688386,15), (189649574,15), (189610764,15), (189571955,15), (189533147,15), (189494340,15), (189455534,15),
    (189416730,15), (189377928,15), (189339126,15), (189300326,15), (189261527,15), (189222729,15), (189183933,15), (189145138,15), (189106344,15), (189067551,15), (189028760,15), (188989970,15), (188951181,15), (188912394,15), (188873608,15), (188834823,15),
    (188796040,15), (188757257,15), (188718477,15), (188679697,15), (188640919,15), (188602141,15), (188563366,15), (188524591,15), (188485818,15), (188447046,15), (188408275,15), (188369506,15), (188330738,15), (188291971,15), (188253206,15), (188214442,15),
    (188175679,15), (188136917,15), (188098157,15), (188059398,15), (188020640,15), (187981883,15), (187943128,15), (187904374,15), (187865622,15), (187826870,15), (187788120,15), (187749371,15), (187710624,15), (187671878,15), (187633133,15), (187594389,15),
    (187555647,15), (187516906,15), (187478166,15), (187439428,15), (187400690,15), (187361955,15), (187323220,15), (187284487,15), (187245755,15), (187207024,15), (187168294,15), (187129566,15), (187090839,15), (187052114,15), (187013389,15), (186974666,15),
    (186935944,15), (186897224,15), (186858505,15), (186819787,15), (186781070,15), (186742355,15), (186703641,15), (186664928,15), (186626216,15), (186587506,15), (186548797,15), (186510090,15), (186471383,15), (186432678,15), (186393974,15), (186355272,15),
    (186316571,15), (186277871,15), (186239172,15), (186200475,15), (186161779,15), (186123084,15), (186084390,15), (186045698,15), (186007007,15), (185968317,15), (185929629,15), (185890942,15), (185852256,15), (185813571,15), (185774888,15), (185736206,15),
    (185697525,15), (185658846,15), (185620168,15), (185581491,15), (185542816,15), (185504141,15), (185465468,15), (185426797,15), (185388126,15), (185349457,15), (185310789,15), (185272122,15), (185233457,15), (185194793,15), (185156130,15), (185117469,15),
    (185078809,15), (185040150,15), (185001492,15), (184962836,15), (184924181,15), (184885527,15), (184846874,15), (184808223,15), (184769573,15), (184730925,15), (184692277,15), (184653631,15), (184614986,15), (184576343,15), (184537701,15), (184499060,15),
    (184460420,15), (184421781,15), (184383144,15), (184344508,15), (184305874,15), (184267241,15), (184228609,15), (184189978,15), (184151348,15), (184112720,15), (184074093,15), (184035468,15), (183996843,15), (183958220,15), (183919599,15), (183880978,15),
    (183842359,15), (183803741,15), (183765124,15), (183726509,15), (183687895,15), (183649282,15), (183610671,15), (183572060,15), (183533451,15), (183494844,15), (183456237,15), (183417632,15), (183379028,15), (183340426,15), (183301824,15), (183263224,15),
    (183224625,15), (183186028,15), (183147432,15), (183108837,15), (183070243,15), (183031651,15), (182993060,15), (182954470,15), (182915881,15), (182877294,15), (182838708,15), (182800124,15), (182761540,15), (182722958,15), (182684377,15), (182645798,15),
    (182607219,15), (182568642,15), (182530067,15), (182491492,15), (182452919,15), (182414347,15), (182375776,15), (182337207,15), (182298639,15), (182260072,15), (182221507,15), (182182942,15), (182144379,15), (182105818,15), (182067257,15), (182028698,15),
    (181990140,15), (181951584,15), (181913028,15), (181874474,15), (181835921,15), (181797370,15), (181758820,15), (181720271,15), (181681723,15), (181643177,15), (181604632,15), (181566088,15), (181527545,15), (181489004,15), (181450464,15), (181411925,15),
    (181373388,15), (181334852,15), (181296317,15), (181257783,15), (181219251,15), (181180720,15), (181142190,15), (181103661,15), (181065134,15), (181026608,15), (180988083,15), (180949560,15), (180911038,15), (180872517,15), (180833997,15), (180795479,15),
    (180756962,15), (180718446,15), (180679932,15), (180641418,15), (180602906,15), (180564396,15), (180525886,15), (180487378,15), (180448871,15), (180410366,15), (180371861,15), (180333358,15), (180294857,15), (180256356,15), (180217857,15), (180179359,15),
    (180140862,15), (180102367,15), (180063873,15), (180025380,15), (179986888,15), (179948398,15), (179909909,15), (179871421,15), (179832935,15), (179794449,15), (179755965,15), (179717483,15), (179679001,15), (179640521,15), (179602042,15), (179563565,15),
    (179525089,15), (179486613,15), (179448140,15), (179409667,15), (179371196,15), (179332726,15), (179294257,15), (179255790,15), (179217324,15), (179178859,15), (179140395,15), (179101933,15), (179063472,15), (179025012,15), (178986554,15), (178948097,15),
    (178909641,15), (178871186,15), (178832732,15), (178794280,15), (178755829,15), (178717380,15), (178678932,15), (178640484,15), (178602039,15), (178563594,15), (178525151,15), (178486709,15), (178448268,15), (178409829,15), (178371391,15), (178332954,15),
    (178294518,15), (178256084,15), (178217651,15), (178179219,15), (178140788,15), (178102359,15), (178063931,15), (178025504,15), (177987079,15), (177948655,15), (177910232,15), (177871810,15), (177833390,15), (177794971,15), (177756553,15), (177718136,15),
    (177679721,15), (177641307,15), (177602894,15), (177564482,15), (177526072,15), (177487663,15), (177449256,15), (177410849,15), (177372444,15), (177334040,15), (177295637,15), (177257236,15), (177218836,15), (177180437,15), (177142040,15), (177103643,15),
    (177065248,15), (177026855,15), (176988462,15), (176950071,15), (176911681,15), (176873292,15), (176834905,15), (176796519,15), (176758134,15), (176719750,15), (176681368,15), (176642987,15), (176604607,15), (176566229,15), (176527851,15), (176489475,15),
    (176451101,15), (176412727,15), (176374355,15), (176335984,15), (176297615,15), (176259246,15), (176220879,15), (176182513,15), (176144149,15), (176105785,15), (176067423,15), (176029062,15), (175990703,15), (175952345,15), (175913988,15), (175875632,15),
    (175837278,15), (175798924,15), (175760572,15), (175722222,15), (175683872,15), (175645524,15), (175607177,15), (175568832,15), (175530488,15), (175492144,15), (175453803,15), (175415462,15), (175377123,15), (175338785,15), (175300448,15), (175262113,15),
    (175223778,15), (175185446,15), (175147114,15), (175108783,15), (175070454,15), (175032126,15), (174993800,15), (174955475,15), (174917150,15), (174878828,15), (174840506,15), (174802186,15), (174763867,15), (174725549,15), (174687233,15), (174648917,15),
    (174610603,15), (174572291,15), (174533979,15), (174495669,15), (174457360,15), (174419053,15), (174380746,15), (174342441,15), (174304137,15), (174265835,15), (174227533,15), (174189233,15), (174150934,15), (174112637,15), (174074341,15), (174036046,15),
    (173997752,15), (173959459,15), (173921168,15), (173882878,15), (173844590,15), (173806302,15), (173768016,15), (173729731,15), (173691447,15), (173653165,15), (173614884,15), (173576604,15), (173538326,15), (173500048,15), (173461772,15), (173423497,15),
    (173385224,15), (173346952,15), (173308681,15), (173270411,15), (173232142,15), (173193875,15), (173155609,15), (173117344,15), (173079081,15), (173040819,15), (173002558,15), (172964298,15), (172926040,15), (172887783,15), (172849527,15), (172811272,15),
    (172773019,15), (172734767,15), (172696516,15), (172658266,15), (172620018,15), (172581771,15), (172543525,15), (172505281,15), (172467038,15), (172428796,15), (172390555,15), (172352315,15), (172314077,15), (172275840,15), (172237604,15), (172199370,15),
    (172161137,15), (172122905,15), (172084674,15), (172046445,15), (172008217,15), (171969990,15), (171931764,15), (171893540,15), (171855317,15), (171817095,15), (171778874,15), (171740655,15), (171702437,15), (171664220,15), (171626005,15), (171587790,15),
    (171549577,15), (171511366,15), (171473155,15), (171434946,15), (171396738,15), (171358531,15), (171320326,15), (171282122,15), (171243919,15), (171205717,15), (171167517,15), (171129317,15), (171091119,15), (171052923,15), (171014727,15), (170976533,15),
    (170938340,15), (170900149,15), (170861958,15), (170823769,15), (170785582,15), (170747395,15), (170709210,15), (170671026,15), (170632843,15), (170594661,15), (170556481,15), (170518302,15), (170480124,15), (170441948,15), (170403772,15), (170365598,15),
    (170327426,15), (170289254,15), (170251084,15), (170212915,15), (170174747,15), (170136581,15), (170098415,15), (170060252,15), (170022089,15), (169983927,15), (169945767,15), (169907608,15), (169869451,15), (169831294,15), (169793139,15), (169754985,15),
    (169716833,15), (169678681,15), (169640531,15), (169602382,15), (169564235,15), (169526088,15), (169487943,15), (169449799,15), (169411657,15), (169373515,15), (169335375,15), (169297236,15), (169259099,15), (169220963,15), (169182827,15), (169144694,15),
    (169106561,15), (169068430,15), (169030300,15), (168992171,15), (168954044,15), (168915917,15), (168877792,15), (168839668,15), (168801546,15), (168763425,15), (168725305,15), (168687186,15), (168649069,15), (168610952,15), (168572837,15), (168534724,15),
    (168496611,15), (168458500,15), (168420390,15), (168382281,15), (168344174,15), (168306068,15), (168267963,15), (168229859,15), (168191757,15), (168153655,15), (168115555,15), (168077457,15), (168039359,15), (168001263,15), (167963168,15), (167925075,15),
    (167886982,15), (167848891,15), (167810801,15), (167772713,15), (167734625,15), (167696539,15), (167658454,15), (167620370,15), (167582288,15), (167544207,15), (167506127,15), (167468048,15), (167429971,15), (167391895,15), (167353820,15), (167315746,15),
    (167277674,15), (167239603,15), (167201533,15), (167163465,15), (167125397,15), (167087331,15), (167049266,15), (167011203,15), (166973140,15), (166935079,15), (166897019,15), (166858961,15), (166820903,15), (166782847,15), (166744793,15), (166706739,15),
    (166668687,15), (166630636,15), (166592586,15), (166554537,15), (166516490,15), (166478444,15), (166440399,15), (166402355,15), (166364313,15), (166326272,15), (166288232,15), (166250194,15), (166212156,15), (166174120,15), (166136085,15), (166098052,15),
    (166060020,15), (166021989,15), (165983959,15), (165945930,15), (165907903,15), (165869877,15), (165831852,15), (165793828,15), (165755806,15), (165717785,15), (165679765,15), (165641747,15), (165603729,15), (165565713,15), (165527698,15), (165489685,15),
    (165451673,15), (165413661,15), (165375652,15), (165337643,15), (165299636,15), (165261630,15), (165223625,15), (165185621,15), (165147619,15), (165109618,15), (165071618,15), (165033620,15), (164995622,15), (164957626,15), (164919631,15), (164881638,15),
    (164843645,15), (164805654,15), (164767664,15), (164729676,15), (164691689,15), (164653702,15), (164615718,15), (164577734,15), (164539752,15), (164501771,15), (164463791,15), (164425812,15), (164387835,15), (164349859,15), (164311884,15), (164273910,15),
    (164235938,15), (164197967,15), (164159997,15), (164122028,15), (164084061,15), (164046095,15), (164008130,15), (163970166,15), (163932204,15), (163894243,15), (163856283,15), (163818324,15), (163780367,15), (163742411,15), (163704456,15), (163666502,15),
    (163628550,15), (163590598,15), (163552649,15), (163514700,15), (163476752,15), (163438806,15), (163400861,15), (163362918,15), (163324975,15), (163287034,15), (163249094,15), (163211155,15), (163173218,15), (163135282,15), (163097347,15), (163059413,15),
    (163021480,15), (162983549,15), (162945619,15), (162907691,15), (162869763,15), (162831837,15), (162793912,15), (162755988,15), (162718065,15), (162680144,15), (162642224,15), (162604305,15), (162566388,15), (162528472,15), (162490557,15), (162452643,15),
    (162414730,15), (162376819,15), (162338909,15), (162301000,15), (162263092,15), (162225186,15), (162187281,15), (162149377,15), (162111475,15), (162073573,15), (162035673,15), (161997774,15), (161959877,15), (161921980,15), (161884085,15), (161846191,15),
    (161808298,15), (161770407,15), (161732517,15), (161694628,15), (161656740,15), (161618854,15), (161580969,15), (161543085,15), (161505202,15), (161467321,15), (161429440,15), (161391561,15), (161353684,15), (161315807,15), (161277932,15), (161240058,15),
    (161202185,15), (161164314,15), (161126443,15), (161088574,15), (161050706,15), (161012840,15), (160974975,15), (160937111,15), (160899248,15), (160861386,15), (160823526,15), (160785667,15), (160747809,15), (160709952,15), (160672097,15), (160634243,15),
    (160596390,15), (160558538,15), (160520688,15), (160482839,15), (160444991,15), (160407144,15), (160369299,15), (160331454,15), (160293611,15), (160255770,15), (160217929,15), (160180090,15), (160142252,15), (160104415,15), (160066580,15), (160028745,15),
    (159990912,15), (159953081,15), (159915250,15), (159877421,15), (159839593,15), (159801766,15), (159763940,15), (159726116,15), (159688293,15), (159650471,15), (159612650,15), (159574831,15), (159537013,15), (159499196,15), (159461380,15), (159423566,15),
    (159385753,15), (159347941,15), (159310130,15), (159272320,15), (159234512,15), (159196705,15), (159158899,15), (159121095,15), (159083292,15), (159045490,15), (159007689,15), (158969889,15), (158932091,15), (158894294,15), (158856498,15), (158818703,15),
    (158780910,15), (158743118,15), (158705327,15), (158667537,15), (158629749,15), (158591962,15), (158554176,15), (158516391,15), (158478608,15), (158440825,15), (158403044,15), (158365265,15), (158327486,15), (158289709,15), (158251933,15), (158214158,15),
    (158176385,15), (158138612,15), (158100841,15), (158063071,15), (158025303,15), (157987535,15), (157949769,15), (157912004,15), (157874241,15), (157836478,15), (157798717,15), (157760957,15), (157723198,15), (157685441,15), (157647685,15), (157609930,15),
    (157572176,15), (157534423,15), (157496672,15), (157458922,15), (157421173,15), (157383426,15), (157345679,15), (157307934,15), (157270190,15), (157232448,15), (157194706,15), (157156966,15), (157119227,15), (157081490,15), (157043753,15), (157006018,15),
    (156968284,15), (156930551,15), (156892820,15), (156855089,15), (156817360,15), (156779633,15), (156741906,15), (156704181,15), (156666457,15), (156628734,15), (156591012,15), (156553292,15), (156515573,15), (156477855,15), (156440138,15), (156402422,15),
    (156364708,15), (156326995,15), (156289284,15), (156251573,15), (156213864,15), (156176156,15), (156138449,15), (156100743,15), (156063039,15), (156025336,15), (155987634,15), (155949933,15), (155912234,15), (155874536,15), (155836839,15), (155799143,15),
    (155761449,15), (155723755,15), (155686063,15), (155648373,15), (155610683,15), (155572995,15), (155535308,15), (155497622,15), (155459937,15), (155422254,15), (155384572,15), (155346891,15), (155309211,15), (155271533,15), (155233856,15), (155196180,15),
    (155158505,15), (155120831,15), (155083159,15), (155045488,15), (155007818,15), (154970150,15), (154932482,15), (154894816,15), (154857151,15), (154819488,15), (154781825,15), (154744164,15), (154706504,15), (154668846,15), (154631188,15), (154593532,15),
    (154555877,15), (154518223,15), (154480570,15), (154442919,15), (154405269,15), (154367620,15), (154329973,15), (154292326,15), (154254681,15), (154217037,15), (154179394,15), (154141753,15), (154104113,15), (154066474,15), (154028836,15), (153991199,15),
    (153953564,15), (153915930,15), (153878297,15), (153840665,15), (153803035,15), (153765406,15), (153727778,15), (153690151,15), (153652526,15), (153614901,15), (153577278,15), (153539657,15), (153502036,15), (153464417,15), (153426799,15), (153389182,15),
    (153351566,15), (153313952,15), (153276339,15), (153238727,15), (153201116,15), (153163507,15), (153125898,15), (153088291,15), (153050685,15), (153013081,15), (152975478,15), (152937875,15), (152900275,15), (152862675,15), (152825077,15), (152787479,15),
    (152749883,15), (152712289,15), (152674695,15), (152637103,15), (152599512,15), (152561922,15), (152524333,15), (152486746,15), (152449160,15), (152411575,15), (152373991,15), (152336409,15), (152298828,15), (152261248,15), (152223669,15), (152186091,15),
    (152148515,15), (152110940,15), (152073366,15), (152035794,15), (151998222,15), (151960652,15), (151923083,15), (151885515,15), (151847949,15), (151810384,15), (151772820,15), (151735257,15), (151697695,15), (151660135,15), (151622576,15), (151585018,15),
    (151547461,15), (151509906,15), (151472352,15), (151434799,15), (151397247,15), (151359696,15), (151322147,15), (151284599,15), (151247052,15), (151209507,15), (151171962,15), (151134419,15), (151096877,15), (151059336,15), (151021797,15), (150984259,15),
    (150946722,15), (150909186,15), (150871651,15), (150834118,15), (150796586,15), (150759055,15), (150721525,15), (150683997,15), (150646469,15), (150608943,15), (150571419,15), (150533895,15), (150496373,15), (150458852,15), (150421332,15), (150383813,15),
    (150346296,15), (150308779,15), (150271264,15), (150233751,15), (150196238,15), (150158727,15), (150121217,15), (150083708,15), (150046200,15), (150008694,15), (149971189,15), (149933685,15), (149896182,15), (149858680,15), (149821180,15), (149783681,15),
    (149746183,15), (149708687,15), (149671191,15), (149633697,15), (149596204,15), (149558713,15), (149521222,15), (149483733,15), (149446245,15), (149408758,15), (149371272,15), (149333788,15), (149296305,15), (149258823,15), (149221342,15), (149183863,15),
    (149146384,15), (149108907,15), (149071432,15), (149033957,15), (148996484,15), (148959011,15), (148921541,15), (148884071,15), (148846602,15), (148809135,15), (148771669,15), (148734204,15), (148696741,15), (148659278,15), (148621817,15), (148584357,15),
    (148546899,15), (148509441,15), (148471985,15), (148434530,15), (148397076,15), (148359623,15), (148322172,15), (148284722,15), (148247273,15), (148209825,15), (148172379,15), (148134934,15), (148097490,15), (148060047,15), (148022605,15), (147985165,15),
    (147947726,15), (147910288,15), (147872851,15), (147835416,15), (147797981,15), (147760548,15), (147723117,15), (147685686,15), (147648257,15), (147610828,15), (147573401,15), (147535976,15), (147498551,15), (147461128,15), (147423706,15), (147386285,15),
    (147348865,15), (147311447,15), (147274030,15), (147236614,15), (147199199,15), (147161786,15), (147124373,15), (147086962,15), (147049553,15), (147012144,15), (146974736,15), (146937330,15), (146899925,15), (146862522,15), (146825119,15), (146787718,15),
    (146750318,15), (146712919,15), (146675521,15), (146638125,15), (146600729,15), (146563335,15), (146525943,15), (146488551,15), (146451161,15), (146413772,15), (146376384,15), (146338997,15), (146301612,15), (146264227,15), (146226844,15), (146189462,15),
    (146152082,15), (146114703,15), (146077324,15), (146039947,15), (146002572,15), (145965197,15), (145927824,15), (145890452,15), (145853081,15), (145815711,15), (145778343,15), (145740976,15), (145703610,15), (145666245,15), (145628882,15), (145591519,15),
    (145554158,15), (145516798,15), (145479440,15), (145442082,15), (145404726,15), (145367371,15), (145330017,15), (145292664,15), (145255313,15), (145217963,15), (145180614,15), (145143266,15), (145105920,15), (145068574,15), (145031230,15), (144993888,15),
    (144956546,15), (144919206,15), (144881866,15), (144844528,15), (144807192,15), (144769856,15), (144732522,15), (144695189,15), (144657857,15), (144620526,15), (144583197,15), (144545868,15), (144508541,15), (144471215,15), (144433891,15), (144396567,15),
    (144359245,15), (144321924,15), (144284605,15), (144247286,15), (144209969,15), (144172653,15), (144135338,15), (144098024,15), (144060712,15), (144023400,15), (143986090,15), (143948781,15), (143911474,15), (143874168,15), (143836862,15), (143799558,15),
    (143762256,15), (143724954,15), (143687654,15), (143650355,15), (143613057,15), (143575760,15), (143538465,15), (143501171,15), (143463877,15), (143426586,15), (143389295,15), (143352006,15), (143314718,15), (143277431,15), (143240145,15), (143202860,15),
    (143165577,15), (143128295,15), (143091014,15), (143053734,15), (143016456,15), (142979179,15), (142941903,15), (142904628,15), (142867354,15), (142830082,15), (142792811,15), (142755541,15), (142718272,15), (142681004,15), (142643738,15), (142606473,15),
    (142569209,15), (142531946,15), (142494685,15), (142457425,15), (142420166,15), (142382908,15), (142345651,15), (142308396,15), (142271142,15), (142233889,15), (142196637,15), (142159386,15), (142122137,15), (142084889,15), (142047642,15), (142010396,15),
    (141973152,15), (141935908,15), (141898666,15), (141861425,15), (141824186,15), (141786947,15), (141749710,15), (141712474,15), (141675239,15), (141638006,15), (141600773,15), (141563542,15), (141526312,15), (141489083,15), (141451856,15), (141414629,15),
    (141377404,15), (141340180,15), (141302958,15), (141265736,15), (141228516,15), (141191297,15), (141154079,15), (141116862,15), (141079647,15), (141042433,15), (141005220,15), (140968008,15), (140930797,15), (140893588,15), (140856380,15), (140819173,15),
    (140781967,15), (140744762,15), (140707559,15), (140670357,15), (140633156,15), (140595956,15), (140558758,15), (140521561,15), (140484365,15), (140447170,15), (140409976,15), (140372784,15), (140335592,15), (140298402,15), (140261213,15), (140224026,15),
    (140186839,15), (140149654,15), (140112470,15), (140075287,15), (140038106,15), (140000926,15), (139963746,15), (139926568,15), (139889392,15), (139852216,15), (139815042,15), (139777869,15), (139740697,15), (139703526,15), (139666357,15), (139629188,15),
    (139592021,15), (139554855,15), (139517691,15), (139480527,15), (139443365,15), (139406204,15), (139369044,15), (139331886,15), (139294728,15), (139257572,15), (139220417,15), (139183263,15), (139146111,15), (139108959,15), (139071809,15), (139034660,15),
    (138997512,15), (138960366,15), (138923221,15), (138886076,15), (138848933,15), (138811792,15), (138774651,15), (138737512,15), (138700374,15), (138663237,15), (138626101,15), (138588967,15), (138551834,15), (138514701,15), (138477571,15), (138440441,15),
    (138403313,15), (138366185,15), (138329059,15), (138291934,15), (138254811,15), (138217688,15), (138180567,15), (138143447,15), (138106328,15), (138069211,15), (138032094,15), (137994979,15), (137957865,15), (137920752,15), (137883641,15), (137846531,15),
    (137809421,15), (137772313,15), (137735207,15), (137698101,15), (137660997,15), (137623894,15), (137586792,15), (137549691,15), (137512592,15), (137475493,15), (137438396,15), (137401300,15), (137364206,15), (137327112,15), (137290020,15), (137252929,15),
    (137215839,15), (137178750,15), (137141663,15), (137104576,15), (137067491,15), (137030407,15), (136993325,15), (136956243,15), (136919163,15), (136882084,15), (136845006,15), (136807930,15), (136770854,15), (136733780,15), (136696707,15), (136659635,15),
    (136622564,15), (136585495,15), (136548427,15), (136511360,15), (136474294,15), (136437229,15), (136400166,15), (136363104,15), (136326043,15), (136288983,15), (136251924,15), (136214867,15), (136177811,15), (136140756,15), (136103702,15), (136066650,15),
    (136029598,15), (135992548,15), (135955499,15), (135918451,15), (135881405,15), (135844359,15), (135807315,15), (135770272,15), (135733230,15), (135696190,15), (135659151,15), (135622112,15), (135585075,15), (135548040,15), (135511005,15), (135473972,15),
    (135436940,15), (135399909,15), (135362879,15), (135325850,15), (135288823,15), (135251797,15), (135214772,15), (135177748,15), (135140726,15), (135103704,15), (135066684,15), (135029665,15), (134992648,15), (134955631,15), (134918616,15), (134881602,15),
    (134844589,15), (134807577,15), (134770566,15), (134733557,15), (134696549,15), (134659542,15), (134622536,15), (134585532,15), (134548528,15), (134511526,15), (134474525,15), (134437526,15), (134400527,15), (134363530,15), (134326534,15), (134289539,15),
    (134252545,15), (134215553,15), (134178561,15), (134141571,15), (134104582,15), (134067594,15), (134030608,15), (133993623,15), (133956638,15), (133919655,15), (133882674,15), (133845693,15), (133808714,15), (133771736,15), (133734759,15), (133697783,15),
    (133660808,15), (133623835,15), (133586863,15), (133549892,15), (133512922,15), (133475954,15), (133438986,15), (133402020,15), (133365055,15), (133328092,15), (133291129,15), (133254168,15), (133217207,15), (133180248,15), (133143291,15), (133106334,15),
    (133069379,15), (133032425,15), (132995472,15), (132958520,15), (132921569,15), (132884620,15), (132847672,15), (132810725,15), (132773779,15), (132736834,15), (132699891,15), (132662949,15), (132626008,15), (132589068,15), (132552129,15), (132515192,15),
    (132478256,15), (132441321,15), (132404387,15), (132367454,15), (132330523,15), (132293592,15), (132256663,15), (132219736,15), (132182809,15), (132145883,15), (132108959,15), (132072036,15), (132035114,15), (131998194,15), (131961274,15), (131924356,15),
    (131887439,15), (131850523,15), (131813608,15), (131776695,15), (131739782,15), (131702871,15), (131665961,15), (131629053,15), (131592145,15), (131555239,15), (131518334,15), (131481430,15), (131444527,15), (131407626,15), (131370725,15), (131333826,15),
    (131296928,15), (131260031,15), (131223136,15), (131186242,15), (131149348,15), (131112456,15), (131075566,15), (131038676,15), (131001788,15), (130964900,15), (130928014,15), (130891130,15), (130854246,15), (130817364,15), (130780482,15), (130743602,15),
    (130706723,15), (130669846,15), (130632969,15), (130596094,15), (130559220,15), (130522347,15), (130485475,15), (130448605,15), (130411736,15), (130374868,15), (130338001,15), (130301135,15), (130264270,15), (130227407,15), (130190545,15), (130153684,15),
    (130116824,15), (130079966,15), (130043108,15), (130006252,15), (129969397,15), (129932544,15), (129895691,15), (129858840,15), (129821989,15), (129785140,15), (129748292,15), (129711446,15), (129674600,15), (129637756,15), (129600913,15), (129564071,15),
    (129527231,15), (129490391,15), (129453553,15), (129416716,15), (129379880,15), (129343045,15), (129306212,15), (129269379,15), (129232548,15), (129195718,15), (129158890,15), (129122062,15), (129085236,15), (129048410,15), (129011586,15), (128974764,15),
    (128937942,15), (128901122,15), (128864302,15), (128827484,15), (128790668,15), (128753852,15), (128717038,15), (128680224,15), (128643412,15), (128606601,15), (128569792,15), (128532983,15), (128496176,15), (128459370,15), (128422565,15), (128385761,15),
    (128348959,15), (128312157,15), (128275357,15), (128238558,15), (128201760,15), (128164964,15), (128128168,15), (128091374,15), (128054581,15), (128017789,15), (127980999,15), (127944209,15), (127907421,15), (127870634,15), (127833848,15), (127797063,15),
    (127760280,15), (127723497,15), (127686716,15), (127649936,15), (127613157,15), (127576380,15), (127539604,15), (127502828,15), (127466054,15), (127429282,15), (127392510,15), (127355739,15), (127318970,15), (127282202,15), (127245435,15), (127208670,15),
    (127171905,15), (127135142,15), (127098380,15), (127061619,15), (127024859,15), (126988101,15), (126951343,15), (126914587,15), (126877832,15), (126841078,15), (126804326,15), (126767574,15), (126730824,15), (126694075,15), (126657327,15), (126620580,15),
    (126583835,15), (126547091,15), (126510348,15), (126473606,15), (126436865,15), (126400125,15), (126363387,15), (126326650,15), (126289914,15), (126253179,15), (126216445,15), (126179713,15), (126142982,15), (126106252,15), (126069523,15), (126032795,15),
    (125996069,15), (125959343,15), (125922619,15), (125885896,15), (125849175,15), (125812454,15), (125775735,15), (125739017,15), (125702300,15), (125665584,15), (125628869,15), (125592156,15), (125555443,15), (125518732,15), (125482023,15), (125445314,15),
    (125408606,15), (125371900,15), (125335195,15), (125298491,15), (125261788,15), (125225087,15), (125188386,15), (125151687,15), (125114989,15), (125078292,15), (125041596,15), (125004902,15), (124968209,15), (124931517,15), (124894826,15), (124858136,15),
    (124821447,15), (124784760,15), (124748074,15), (124711389,15), (124674705,15), (124638022,15), (124601341,15), (124564661,15), (124527982,15), (124491304,15), (124454627,15), (124417952,15), (124381277,15), (124344604,15), (124307932,15), (124271261,15),
    (124234592,15), (124197923,15), (124161256,15), (124124590,15), (124087925,15), (124051261,15), (124014599,15), (123977938,15), (123941278,15), (123904619,15), (123867961,15), (123831304,15), (123794649,15), (123757995,15), (123721342,15), (123684690,15),
    (123648039,15), (123611390,15), (123574741,15), (123538094,15), (123501448,15), (123464804,15), (123428160,15), (123391518,15), (123354876,15), (123318236,15), (123281598,15), (123244960,15), (123208323,15), (123171688,15), (123135054,15), (123098421,15),
    (123061789,15), (123025159,15), (122988529,15), (122951901,15), (122915274,15), (122878648,15), (122842024,15), (122805400,15), (122768778,15), (122732157,15), (122695537,15), (122658918,15), (122622301,15), (122585684,15), (122549069,15), (122512455,15),
    (122475842,15), (122439230,15), (122402620,15), (122366011,15), (122329403,15), (122292796,15), (122256190,15), (122219585,15), (122182982,15), (122146380,15), (122109779,15), (122073179,15), (122036580,15), (121999983,15), (121963386,15), (121926791,15),
    (121890197,15), (121853604,15), (121817013,15), (121780422,15), (121743833,15), (121707245,15), (121670658,15), (121634073,15), (121597488,15), (121560905,15), (121524323,15), (121487742,15), (121451162,15), (121414583,15), (121378006,15), (121341430,15),
    (121304854,15), (121268281,15), (121231708,15), (121195136,15), (121158566,15), (121121997,15), (121085429,15), (121048862,15), (121012296,15), (120975732,15), (120939169,15), (120902606,15), (120866046,15), (120829486,15), (120792927,15), (120756370,15),
    (120719814,15), (120683259,15), (120646705,15), (120610152,15), (120573601,15), (120537050,15), (120500501,15), (120463953,15), (120427406,15), (120390861,15), (120354316,15), (120317773,15), (120281231,15), (120244690,15), (120208150,15), (120171612,15),
    (120135074,15), (120098538,15), (120062003,15), (120025469,15), (119988937,15), (119952405,15), (119915875,15), (119879346,15), (119842818,15), (119806291,15), (119769765,15), (119733241,15), (119696718,15), (119660196,15), (119623675,15), (119587155,15),
    (119550637,15), (119514119,15), (119477603,15), (119441088,15), (119404574,15), (119368062,15), (119331550,15), (119295040,15), (119258531,15), (119222023,15), (119185516,15), (119149010,15), (119112506,15), (119076003,15), (119039501,15), (119003000,15),
    (118966500,15), (118930001,15), (118893504,15), (118857008,15), (118820513,15), (118784019,15), (118747526,15), (118711035,15), (118674544,15), (118638055,15), (118601567,15), (118565081,15), (118528595,15), (118492111,15), (118455627,15), (118419145,15),
    (118382664,15), (118346185,15), (118309706,15), (118273229,15), (118236752,15), (118200277,15), (118163803,15), (118127331,15), (118090859,15), (118054389,15), (118017920,15), (117981452,15), (117944985,15), (117908519,15), (117872055,15), (117835591,15),
    (117799129,15), (117762668,15), (117726209,15), (117689750,15), (117653292,15), (117616836,15), (117580381,15), (117543927,15), (117507474,15), (117471023,15), (117434573,15), (117398123,15), (117361675,15), (117325228,15), (117288783,15), (117252338,15),
    (117215895,15), (117179453,15), (117143012,15), (117106572,15), (117070133,15), (117033696,15), (116997259,15), (116960824,15), (116924390,15), (116887957,15), (116851526,15), (116815095,15), (116778666,15), (116742238,15), (116705811,15), (116669385,15),
    (116632961,15), (116596537,15), (116560115,15), (116523694,15), (116487274,15), (116450855,15), (116414438,15), (116378021,15), (116341606,15), (116305192,15), (116268779,15), (116232367,15), (116195957,15), (116159547,15), (116123139,15), (116086732,15),
    (116050326,15), (116013922,15), (115977518,15), (115941116,15), (115904715,15), (115868315,15), (115831916,15), (115795518,15), (115759122,15), (115722726,15), (115686332,15), (115649939,15), (115613547,15), (115577157,15), (115540767,15), (115504379,15),
    (115467992,15), (115431606,15), (115395221,15), (115358838,15), (115322455,15), (115286074,15), (115249694,15), (115213315,15), (115176937,15), (115140560,15), (115104185,15), (115067811,15), (115031438,15), (114995066,15), (114958695,15), (114922325,15),
    (114885957,15), (114849590,15), (114813224,15), (114776859,15), (114740495,15), (114704132,15), (114667771,15), (114631411,15), (114595052,15), (114558694,15), (114522337,15), (114485982,15), (114449627,15), (114413274,15), (114376922,15), (114340571,15),
    (114304221,15), (114267873,15), (114231526,15), (114195179,15), (114158834,15), (114122490,15), (114086148,15), (114049806,15), (114013466,15), (113977127,15), (113940789,15), (113904452,15), (113868116,15), (113831782,15), (113795448,15), (113759116,15),
    (113722785,15), (113686455,15), (113650126,15), (113613799,15), (113577473,15), (113541147,15), (113504823,15), (113468500,15), (113432179,15), (113395858,15), (113359539,15), (113323221,15), (113286904,15), (113250588,15), (113214273,15), (113177960,15),
    (113141647,15), (113105336,15), (113069026,15), (113032717,15), (112996410,15), (112960103,15), (112923798,15), (112887494,15), (112851191,15), (112814889,15), (112778588,15), (112742288,15), (112705990,15), (112669693,15), (112633397,15), (112597102,15),
    (112560808,15), (112524516,15), (112488224,15), (112451934,15), (112415645,15), (112379357,15), (112343071,15), (112306785,15), (112270501,15), (112234218,15), (112197936,15), (112161655,15), (112125375,15), (112089096,15), (112052819,15), (112016543,15),
    (111980268,15), (111943994,15), (111907721,15), (111871450,15), (111835179,15), (111798910,15), (111762642,15), (111726375,15), (111690109,15), (111653845,15), (111617581,15), (111581319,15), (111545058,15), (111508798,15), (111472539,15), (111436282,15),
    (111400025,15), (111363770,15), (111327516,15), (111291263,15), (111255011,15), (111218761,15), (111182511,15), (111146263,15), (111110016,15), (111073770,15), (111037525,15), (111001282,15), (110965039,15), (110928798,15), (110892558,15), (110856319,15),
    (110820081,15), (110783844,15), (110747609,15), (110711374,15), (110675141,15), (110638909,15), (110602679,15), (110566449,15), (110530220,15), (110493993,15), (110457767,15), (110421542,15), (110385318,15), (110349095,15), (110312874,15), (110276653,15),
    (110240434,15), (110204216,15), (110167999,15), (110131784,15), (110095569,15), (110059356,15), (110023143,15), (109986932,15), (109950722,15), (109914514,15), (109878306,15), (109842100,15), (109805894,15), (109769690,15), (109733487,15), (109697286,15),
    (109661085,15), (109624885,15), (109588687,15), (109552490,15), (109516294,15), (109480099,15), (109443906,15), (109407713,15), (109371522,15), (109335332,15), (109299143,15), (109262955,15), (109226768,15), (109190583,15), (109154398,15), (109118215,15),
    (109082033,15), (109045852,15), (109009672,15), (108973494,15), (108937316,15), (108901140,15), (108864965,15), (108828791,15), (108792618,15), (108756447,15), (108720276,15), (108684107,15), (108647939,15), (108611772,15), (108575606,15), (108539441,15),
    (108503278,15), (108467116,15), (108430954,15), (108394794,15), (108358636,15), (108322478,15), (108286321,15), (108250166,15), (108214012,15), (108177859,15), (108141707,15), (108105556,15), (108069406,15), (108033258,15), (107997111,15), (107960965,15),
    (107924820,15), (107888676,15), (107852533,15), (107816392,15), (107780252,15), (107744112,15), (107707974,15), (107671838,15), (107635702,15), (107599567,15), (107563434,15), (107527302,15), (107491171,15), (107455041,15), (107418912,15), (107382785,15),
    (107346658,15), (107310533,15), (107274409,15), (107238286,15), (107202164,15), (107166043,15), (107129924,15), (107093806,15), (107057688,15), (107021572,15), (106985458,15), (106949344,15), (106913231,15), (106877120,15), (106841010,15), (106804901,15),
    (106768793,15), (106732686,15), (106696581,15), (106660476,15), (106624373,15), (106588271,15), (106552170,15), (106516070,15), (106479971,15), (106443874,15), (106407777,15), (106371682,15), (106335588,15), (106299495,15), (106263404,15), (106227313,15),
    (106191224,15), (106155135,15), (106119048,15), (106082962,15), (106046878,15), (106010794,15), (105974712,15), (105938630,15), (105902550,15), (105866471,15), (105830393,15), (105794317,15), (105758241,15), (105722167,15), (105686093,15), (105650021,15),
    (105613950,15), (105577881,15), (105541812,15), (105505745,15), (105469678,15), (105433613,15), (105397549,15), (105361486,15), (105325425,15), (105289364,15), (105253305,15), (105217247,15), (105181189,15), (105145134,15), (105109079,15), (105073025,15),
    (105036973,15), (105000921,15), (104964871,15), (104928822,15), (104892775,15), (104856728,15), (104820682,15), (104784638,15), (104748595,15), (104712553,15), (104676512,15), (104640472,15), (104604433,15), (104568396,15), (104532360,15), (104496325,15),
    (104460291,15), (104424258,15), (104388226,15), (104352196,15), (104316166,15), (104280138,15), (104244111,15), (104208085,15), (104172060,15), (104136037,15), (104100014,15), (104063993,15), (104027973,15), (103991954,15), (103955936,15), (103919919,15),
    (103883904,15), (103847889,15), (103811876,15), (103775864,15), (103739853,15), (103703843,15), (103667835,15), (103631827,15), (103595821,15), (103559816,15), (103523812,15), (103487809,15), (103451807,15), (103415806,15), (103379807,15), (103343809,15),
    (103307812,15), (103271816,15), (103235821,15), (103199827,15), (103163835,15), (103127843,15), (103091853,15), (103055864,15), (103019876,15), (102983889,15), (102947904,15), (102911919,15), (102875936,15), (102839954,15), (102803973,15), (102767993,15),
    (102732014,15), (102696037,15), (102660060,15), (102624085,15), (102588111,15), (102552138,15), (102516166,15), (102480196,15), (102444226,15), (102408258,15), (102372291,15), (102336325,15), (102300360,15), (102264396,15), (102228433,15), (102192472,15),
    (102156512,15), (102120552,15), (102084594,15), (102048638,15), (102012682,15), (101976727,15), (101940774,15), (101904822,15), (101868871,15), (101832921,15), (101796972,15), (101761024,15), (101725078,15), (101689132,15), (101653188,15), (101617245,15),
    (101581303,15), (101545362,15), (101509423,15), (101473484,15), (101437547,15), (101401611,15), (101365676,15), (101329742,15), (101293809,15), (101257878,15), (101221947,15), (101186018,15), (101150090,15), (101114163,15), (101078237,15), (101042312,15),
    (101006389,15), (100970466,15), (100934545,15), (100898625,15), (100862706,15), (100826788,15), (100790872,15), (100754956,15), (100719042,15), (100683129,15), (100647217,15), (100611306,15), (100575396,15), (100539487,15), (100503580,15), (100467674,15),
    (100431768,15), (100395864,15), (100359961,15), (100324060,15), (100288159,15), (100252260,15), (100216361,15), (100180464,15), (100144568,15), (100108673,15), (100072780,15), (100036887,15), (100000996,15), (99965105,15), (99929216,15), (99893328,15),
    (99857441,15), (99821556,15), (99785671,15), (99749788,15), (99713906,15), (99678024,15), (99642145,15), (99606266,15), (99570388,15), (99534512,15), (99498636,15), (99462762,15), (99426889,15), (99391017,15), (99355146,15), (99319276,15),
    (99283408,15), (99247541,15), (99211674,15), (99175809,15), (99139945,15), (99104083,15), (99068221,15), (99032361,15), (98996501,15), (98960643,15), (98924786,15), (98888930,15), (98853075,15), (98817222,15), (98781369,15), (98745518,15),
    (98709668,15), (98673819,15), (98637971,15), (98602124,15), (98566278,15), (98530434,15), (98494591,15), (98458748,15), (98422907,15), (98387067,15), (98351229,15), (98315391,15), (98279555,15), (98243719,15), (98207885,15), (98172052,15),
    (98136220,15), (98100390,15), (98064560,15), (98028732,15), (97992904,15), (97957078,15), (97921253,15), (97885429,15), (97849606,15), (97813785,15), (97777964,15), (97742145,15), (97706327,15), (97670510,15), (97634694,15), (97598879,15),
    (97563066,15), (97527253,15), (97491442,15), (97455632,15), (97419823,15), (97384015,15), (97348208,15), (97312403,15), (97276598,15), (97240795,15), (97204993,15), (97169192,15), (97133392,15), (97097593,15), (97061795,15), (97025999,15),
    (96990204,15), (96954409,15), (96918616,15), (96882824,15), (96847034,15), (96811244,15), (96775456,15), (96739668,15), (96703882,15), (96668097,15), (96632313,15), (96596530,15), (96560749,15), (96524968,15), (96489189,15), (96453411,15),
    (96417634,15), (96381858,15), (96346083,15), (96310309,15), (96274537,15), (96238765,15), (96202995,15), (96167226,15), (96131458,15), (96095691,15), (96059926,15), (96024161,15), (95988398,15), (95952636,15), (95916875,15), (95881115,15),
    (95845356,15), (95809598,15), (95773842,15), (95738086,15), (95702332,15), (95666579,15), (95630827,15), (95595076,15), (95559326,15), (95523578,15), (95487830,15), (95452084,15), (95416339,15), (95380595,15), (95344852,15), (95309110,15),
    (95273370,15), (95237630,15), (95201892,15), (95166155,15), (95130419,15), (95094684,15), (95058950,15), (95023218,15), (94987486,15), (94951756,15), (94916027,15), (94880299,15), (94844572,15), (94808846,15), (94773121,15), (94737398,15),
    (94701676,15), (94665954,15), (94630234,15), (94594515,15), (94558797,15), (94523081,15), (94487365,15), (94451651,15), (94415938,15), (94380226,15), (94344515,15), (94308805,15), (94273096,15), (94237388,15), (94201682,15), (94165977,15),
    (94130273,15), (94094570,15), (94058868,15), (94023167,15), (93987467,15), (93951769,15), (93916071,15), (93880375,15), (93844680,15), (93808986,15), (93773294,15), (93737602,15), (93701911,15), (93666222,15), (93630534,15), (93594847,15),
    (93559161,15), (93523476,15), (93487792,15), (93452110,15), (93416428,15), (93380748,15), (93345069,15), (93309391,15), (93273714,15), (93238038,15), (93202364,15), (93166690,15), (93131018,15), (93095347,15), (93059677,15), (93024008,15),
    (92988340,15), (92952673,15), (92917008,15), (92881343,15), (92845680,15), (92810018,15), (92774357,15), (92738697,15), (92703038,15), (92667381,15), (92631724,15), (92596069,15), (92560415,15), (92524762,15), (92489110,15), (92453459,15),
    (92417810,15), (92382161,15), (92346514,15), (92310868,15), (92275223,15), (92239579,15), (92203936,15), (92168294,15), (92132654,15), (92097014,15), (92061376,15), (92025739,15), (91990103,15), (91954468,15), (91918834,15), (91883201,15),
    (91847570,15), (91811940,15), (91776310,15), (91740682,15), (91705055,15), (91669430,15), (91633805,15), (91598181,15), (91562559,15), (91526938,15), (91491318,15), (91455699,15), (91420081,15), (91384464,15), (91348848,15), (91313234,15),
    (91277621,15), (91242008,15), (91206397,15), (91170787,15), (91135179,15), (91099571,15), (91063964,15), (91028359,15), (90992755,15), (90957151,15), (90921549,15), (90885949,15), (90850349,15), (90814750,15), (90779153,15), (90743556,15),
    (90707961,15), (90672367,15), (90636774,15), (90601182,15), (90565592,15), (90530002,15), (90494414,15), (90458826,15), (90423240,15), (90387655,15), (90352071,15), (90316489,15), (90280907,15), (90245326,15), (90209747,15), (90174169,15),
    (90138592,15), (90103016,15), (90067441,15), (90031867,15), (89996295,15), (89960723,15), (89925153,15), (89889584,15), (89854016,15), (89818449,15), (89782883,15), (89747318,15), (89711755,15), (89676192,15), (89640631,15), (89605071,15),
    (89569512,15), (89533954,15), (89498397,15), (89462841,15), (89427287,15), (89391734,15), (89356181,15), (89320630,15), (89285080,15), (89249531,15), (89213984,15), (89178437,15), (89142892,15), (89107347,15), (89071804,15), (89036262,15),
    (89000721,15), (88965181,15), (88929643,15), (88894105,15), (88858569,15), (88823033,15), (88787499,15), (88751966,15), (88716434,15), (88680904,15), (88645374,15), (88609845,15), (88574318,15), (88538792,15), (88503267,15), (88467743,15),
    (88432220,15), (88396698,15), (88361178,15), (88325658,15), (88290140,15), (88254622,15), (88219106,15), (88183591,15), (88148078,15), (88112565,15), (88077053,15), (88041543,15), (88006033,15), (87970525,15), (87935018,15), (87899512,15),
    (87864007,15), (87828504,15), (87793001,15), (87757500,15), (87721999,15), (87686500,15), (87651002,15), (87615505,15), (87580010,15), (87544515,15), (87509021,15), (87473529,15), (87438038,15), (87402547,15), (87367058,15), (87331571,15),
    (87296084,15), (87260598,15), (87225114,15), (87189630,15), (87154148,15), (87118667,15), (87083187,15), (87047708,15), (87012230,15), (86976753,15), (86941278,15), (86905804,15), (86870330,15), (86834858,15), (86799387,15), (86763917,15),
    (86728449,15), (86692981,15), (86657514,15), (86622049,15), (86586585,15), (86551122,15), (86515660,15), (86480199,15), (86444739,15), (86409280,15), (86373823,15), (86338367,15), (86302911,15), (86267457,15), (86232004,15), (86196552,15),
    (86161102,15), (86125652,15), (86090204,15), (86054756,15), (86019310,15), (85983865,15), (85948421,15), (85912978,15), (85877536,15), (85842096,15), (85806656,15), (85771218,15), (85735781,15), (85700344,15), (85664909,15), (85629476,15),
    (85594043,15), (85558611,15), (85523181,15), (85487751,15), (85452323,15), (85416896,15), (85381470,15), (85346045,15), (85310621,15), (85275199,15), (85239777,15), (85204357,15), (85168938,15), (85133519,15), (85098102,15), (85062687,15),
    (85027272,15), (84991858,15), (84956446,15), (84921034,15), (84885624,15), (84850215,15), (84814807,15), (84779400,15), (84743994,15), (84708590,15), (84673186,15), (84637784,15), (84602382,15), (84566982,15), (84531583,15), (84496185,15),
    (84460788,15), (84425393,15), (84389998,15), (84354605,15), (84319213,15), (84283821,15), (84248431,15), (84213042,15), (84177655,15), (84142268,15), (84106882,15), (84071498,15), (84036115,15), (84000732,15), (83965351,15), (83929971,15),
    (83894593,15), (83859215,15), (83823838,15), (83788463,15), (83753088,15), (83717715,15), (83682343,15), (83646972,15), (83611602,15), (83576234,15), (83540866,15), (83505499,15), (83470134,15), (83434770,15), (83399407,15), (83364045,15),
    (83328684,15), (83293324,15), (83257965,15), (83222608,15), (83187251,15), (83151896,15), (83116542,15), (83081189,15), (83045837,15), (83010486,15), (82975137,15), (82939788,15), (82904441,15), (82869094,15), (82833749,15), (82798405,15),
    (82763062,15), (82727720,15), (82692379,15), (82657040,15), (82621701,15), (82586364,15), (82551028,15), (82515693,15), (82480359,15), (82445026,15), (82409694,15), (82374363,15), (82339034,15), (82303705,15), (82268378,15), (82233052,15),
    (82197727,15), (82162403,15), (82127080,15), (82091759,15), (82056438,15), (82021119,15), (81985800,15), (81950483,15), (81915167,15), (81879852,15), (81844538,15), (81809225,15), (81773914,15), (81738603,15), (81703294,15), (81667986,15),
    (81632678,15), (81597372,15), (81562068,15), (81526764,15), (81491461,15), (81456160,15), (81420859,15), (81385560,15), (81350262,15), (81314965,15), (81279669,15), (81244374,15), (81209080,15), (81173787,15), (81138496,15), (81103206,15),
    (81067916,15), (81032628,15), (80997341,15), (80962055,15), (80926770,15), (80891487,15), (80856204,15), (80820923,15), (80785642,15), (80750363,15), (80715085,15), (80679808,15), (80644532,15), (80609258,15), (80573984,15), (80538712,15),
    (80503440,15), (80468170,15), (80432901,15), (80397633,15), (80362366,15), (80327100,15), (80291835,15), (80256572,15), (80221309,15), (80186048,15), (80150788,15), (80115529,15), (80080271,15), (80045014,15), (80009758,15), (79974504,15),
    (79939250,15), (79903998,15), (79868746,15), (79833496,15), (79798247,15), (79762999,15), (79727752,15), (79692507,15), (79657262,15), (79622019,15), (79586776,15), (79551535,15), (79516295,15), (79481056,15), (79445818,15), (79410581,15),
    (79375345,15), (79340111,15), (79304877,15), (79269645,15), (79234414,15), (79199184,15), (79163955,15), (79128727,15), (79093500,15), (79058275,15), (79023050,15), (78987827,15), (78952604,15), (78917383,15), (78882163,15), (78846944,15),
    (78811726,15), (78776510,15), (78741294,15), (78706080,15), (78670866,15), (78635654,15), (78600443,15), (78565233,15), (78530024,15), (78494816,15), (78459609,15), (78424404,15), (78389199,15), (78353996,15), (78318794,15), (78283593,15),
    (78248393,15), (78213194,15), (78177996,15), (78142799,15), (78107604,15), (78072409,15), (78037216,15), (78002024,15), (77966833,15), (77931643,15), (77896454,15), (77861266,15), (77826079,15), (77790894,15), (77755709,15), (77720526,15),
    (77685344,15), (77650163,15), (77614983,15), (77579804,15), (77544626,15), (77509449,15), (77474274,15), (77439099,15), (77403926,15), (77368754,15), (77333583,15), (77298413,15), (77263244,15), (77228076,15), (77192910,15), (77157744,15),
    (77122580,15), (77087416,15), (77052254,15), (77017093,15), (76981933,15), (76946774,15), (76911617,15), (76876460,15), (76841304,15), (76806150,15), (76770997,15), (76735844,15), (76700693,15), (76665543,15), (76630395,15), (76595247,15),
    (76560100,15), (76524955,15), (76489810,15), (76454667,15), (76419525,15), (76384384,15), (76349244,15), (76314105,15), (76278967,15), (76243831,15), (76208695,15), (76173561,15), (76138427,15), (76103295,15), (76068164,15), (76033034,15),
    (75997905,15), (75962777,15), (75927651,15), (75892525,15), (75857401,15), (75822277,15), (75787155,15), (75752034,15), (75716914,15), (75681795,15), (75646678,15), (75611561,15), (75576445,15), (75541331,15), (75506218,15), (75471105,15),
    (75435994,15), (75400884,15), (75365775,15), (75330668,15), (75295561,15), (75260455,15), (75225351,15), (75190247,15), (75155145,15), (75120044,15), (75084944,15), (75049845,15), (75014747,15), (74979651,15), (74944555,15), (74909461,15),
    (74874367,15), (74839275,15), (74804184,15), (74769094,15), (74734005,15), (74698917,15), (74663830,15), (74628745,15), (74593660,15), (74558577,15), (74523494,15), (74488413,15), (74453333,15), (74418254,15), (74383176,15), (74348100,15),
    (74313024,15), (74277949,15), (74242876,15), (74207804,15), (74172732,15), (74137662,15), (74102593,15), (74067525,15), (74032459,15), (73997393,15), (73962328,15), (73927265,15), (73892203,15), (73857141,15), (73822081,15), (73787022,15),
    (73751964,15), (73716907,15), (73681852,15), (73646797,15), (73611744,15), (73576691,15), (73541640,15), (73506590,15), (73471541,15), (73436493,15), (73401446,15), (73366400,15), (73331355,15), (73296312,15), (73261269,15), (73226228,15),
    (73191188,15), (73156149,15), (73121111,15), (73086074,15), (73051038,15), (73016003,15), (72980970,15), (72945937,15), (72910906,15), (72875875,15), (72840846,15), (72805818,15), (72770791,15), (72735765,15), (72700741,15), (72665717,15),
    (72630694,15), (72595673,15), (72560653,15), (72525633,15), (72490615,15), (72455598,15), (72420582,15), (72385567,15), (72350554,15), (72315541,15), (72280530,15), (72245519,15), (72210510,15), (72175502,15), (72140495,15), (72105489,15),
    (72070484,15), (72035480,15), (72000477,15), (71965476,15), (71930475,15), (71895476,15), (71860478,15), (71825481,15), (71790485,15), (71755490,15), (71720496,15), (71685503,15), (71650511,15), (71615521,15), (71580531,15), (71545543,15),
    (71510556,15), (71475570,15), (71440585,15), (71405601,15), (71370618,15), (71335636,15), (71300656,15), (71265676,15), (71230698,15), (71195721,15), (71160744,15), (71125769,15), (71090795,15), (71055822,15), (71020851,15), (70985880,15),
    (70950910,15), (70915942,15), (70880975,15), (70846008,15), (70811043,15), (70776079,15), (70741116,15), (70706154,15), (70671194,15), (70636234,15), (70601275,15), (70566318,15), (70531362,15), (70496406,15), (70461452,15), (70426499,15),
    (70391547,15), (70356596,15), (70321647,15), (70286698,15), (70251750,15), (70216804,15), (70181859,15), (70146914,15), (70111971,15), (70077029,15), (70042088,15), (70007149,15), (69972210,15), (69937272,15), (69902336,15), (69867400,15),
    (69832466,15), (69797533,15), (69762601,15), (69727670,15), (69692740,15), (69657811,15), (69622883,15), (69587957,15), (69553031,15), (69518107,15), (69483183,15), (69448261,15), (69413340,15), (69378420,15), (69343501,15), (69308583,15),
    (69273667,15), (69238751,15), (69203836,15), (69168923,15), (69134011,15), (69099100,15), (69064189,15), (69029280,15), (68994372,15), (68959466,15), (68924560,15), (68889655,15), (68854752,15), (68819849,15), (68784948,15), (68750048,15),
    (68715149,15), (68680251,15), (68645354,15), (68610458,15), (68575563,15), (68540670,15), (68505777,15), (68470886,15), (68435995,15), (68401106,15), (68366218,15), (68331331,15), (68296445,15), (68261560,15), (68226676,15), (68191794,15),
    (68156912,15), (68122032,15), (68087152,15), (68052274,15), (68017397,15), (67982521,15), (67947646,15), (67912772,15), (67877899,15), (67843028,15), (67808157,15), (67773288,15), (67738419,15), (67703552,15), (67668686,15), (67633821,15),
    (67598957,15), (67564094,15), (67529232,15), (67494372,15), (67459512,15), (67424654,15), (67389796,15), (67354940,15), (67320085,15), (67285231,15), (67250378,15), (67215526,15), (67180675,15), (67145825,15), (67110977,15), (67076129,15),
    (67041283,15), (67006437,15), (66971593,15), (66936750,15), (66901908,15), (66867067,15), (66832227,15), (66797388,15), (66762551,15), (66727714,15), (66692879,15), (66658044,15), (66623211,15), (66588379,15), (66553548,15), (66518718,15),
    (66483889,15), (66449061,15), (66414234,15), (66379409,15), (66344584,15), (66309761,15), (66274939,15), (66240117,15), (66205297,15), (66170478,15), (66135660,15), (66100844,15), (66066028,15), (66031213,15), (65996400,15), (65961587,15),
    (65926776,15), (65891966,15), (65857156,15), (65822348,15), (65787541,15), (65752735,15), (65717931,15), (65683127,15), (65648324,15), (65613523,15), (65578722,15), (65543923,15), (65509125,15), (65474328,15), (65439532,15), (65404737,15),
    (65369943,15), (65335150,15), (65300359,15), (65265568,15), (65230779,15), (65195990,15), (65161203,15), (65126417,15), (65091632,15), (65056848,15), (65022065,15), (64987283,15), (64952502,15), (64917723,15), (64882944,15), (64848167,15),
    (64813390,15), (64778615,15), (64743841,15), (64709068,15), (64674296,15), (64639525,15), (64604755,15), (64569986,15), (64535219,15), (64500452,15), (64465687,15), (64430923,15), (64396159,15), (64361397,15), (64326636,15), (64291876,15),
    (64257117,15), (64222360,15), (64187603,15), (64152847,15), (64118093,15), (64083340,15), (64048587,15), (64013836,15), (63979086,15), (63944337,15), (63909589,15), (63874842,15), (63840096,15), (63805352,15), (63770608,15), (63735866,15),
    (63701124,15), (63666384,15), (63631645,15), (63596907,15), (63562170,15), (63527434,15), (63492699,15), (63457965,15), (63423233,15), (63388501,15), (63353771,15), (63319041,15), (63284313,15), (63249586,15), (63214860,15), (63180135,15),
    (63145411,15), (63110688,15), (63075966,15), (63041245,15), (63006526,15), (62971807,15), (62937090,15), (62902374,15), (62867658,15), (62832944,15), (62798231,15), (62763519,15), (62728809,15), (62694099,15), (62659390,15), (62624683,15),
    (62589976,15), (62555271,15), (62520566,15), (62485863,15), (62451161,15), (62416460,15), (62381760,15), (62347061,15), (62312364,15), (62277667,15), (62242971,15), (62208277,15), (62173583,15), (62138891,15), (62104200,15), (62069510,15),
    (62034821,15), (62000133,15), (61965446,15), (61930760,15), (61896076,15), (61861392,15), (61826709,15), (61792028,15), (61757348,15), (61722668,15), (61687990,15), (61653313,15), (61618637,15), (61583962,15), (61549289,15), (61514616,15),
    (61479944,15), (61445274,15), (61410604,15), (61375936,15), (61341269,15), (61306602,15), (61271937,15), (61237273,15), (61202610,15), (61167949,15), (61133288,15), (61098628,15), (61063970,15), (61029312,15), (60994656,15), (60960000,15),
    (60925346,15), (60890693,15), (60856041,15), (60821390,15), (60786740,15), (60752092,15), (60717444,15), (60682797,15), (60648152,15), (60613507,15), (60578864,15), (60544222,15), (60509581,15), (60474940,15), (60440301,15), (60405664,15),
    (60371027,15), (60336391,15), (60301756,15), (60267123,15), (60232490,15), (60197859,15), (60163229,15), (60128599,15), (60093971,15), (60059344,15), (60024718,15), (59990093,15), (59955470,15), (59920847,15), (59886225,15), (59851605,15),
    (59816985,15), (59782367,15), (59747750,15), (59713134,15), (59678519,15), (59643905,15), (59609292,15), (59574680,15), (59540069,15), (59505459,15), (59470851,15), (59436243,15), (59401637,15), (59367032,15), (59332427,15), (59297824,15),
    (59263222,15), (59228621,15), (59194021,15), (59159422,15), (59124825,15), (59090228,15), (59055632,15), (59021038,15), (58986445,15), (58951852,15), (58917261,15), (58882671,15), (58848082,15), (58813494,15), (58778907,15), (58744321,15),
    (58709737,15), (58675153,15), (58640570,15), (58605989,15), (58571409,15), (58536829,15), (58502251,15), (58467674,15), (58433098,15), (58398523,15), (58363949,15), (58329376,15), (58294805,15), (58260234,15), (58225664,15), (58191096,15),
    (58156529,15), (58121962,15), (58087397,15), (58052833,15), (58018270,15), (57983708,15), (57949147,15), (57914587,15), (57880029,15), (57845471,15), (57810914,15), (57776359,15), (57741805,15), (57707251,15), (57672699,15), (57638148,15),
    (57603598,15), (57569049,15), (57534501,15), (57499954,15), (57465409,15), (57430864,15), (57396320,15), (57361778,15), (57327237,15), (57292696,15), (57258157,15), (57223619,15), (57189082,15), (57154546,15), (57120011,15), (57085477,15),
    (57050945,15), (57016413,15), (56981882,15), (56947353,15), (56912824,15), (56878297,15), (56843771,15), (56809246,15), (56774722,15), (56740199,15), (56705677,15), (56671156,15), (56636636,15), (56602118,15), (56567600,15), (56533083,15),
    (56498568,15), (56464054,15), (56429540,15), (56395028,15), (56360517,15), (56326007,15), (56291498,15), (56256990,15), (56222484,15), (56187978,15), (56153473,15), (56118970,15), (56084467,15), (56049966,15), (56015466,15), (55980966,15),
    (55946468,15), (55911971,15), (55877475,15), (55842980,15), (55808487,15), (55773994,15), (55739502,15), (55705012,15), (55670522,15), (55636034,15), (55601546,15), (55567060,15), (55532575,15), (55498091,15), (55463608,15), (55429126,15),
    (55394645,15), (55360165,15), (55325687,15), (55291209,15), (55256732,15), (55222257,15), (55187783,15), (55153309,15), (55118837,15), (55084366,15), (55049896,15), (55015427,15), (54980959,15), (54946492,15), (54912026,15), (54877562,15),
    (54843098,15), (54808636,15), (54774174,15), (54739714,15), (54705255,15), (54670796,15), (54636339,15), (54601883,15), (54567428,15), (54532974,15), (54498522,15), (54464070,15), (54429619,15), (54395170,15), (54360721,15), (54326274,15),
    (54291827,15), (54257382,15), (54222938,15), (54188495,15), (54154053,15), (54119612,15), (54085172,15), (54050733,15), (54016295,15), (53981859,15), (53947423,15), (53912989,15), (53878555,15), (53844123,15), (53809692,15), (53775262,15),
    (53740833,15), (53706405,15), (53671978,15), (53637552,15), (53603127,15), (53568703,15), (53534281,15), (53499859,15), (53465439,15), (53431019,15), (53396601,15), (53362184,15), (53327767,15), (53293352,15), (53258938,15), (53224525,15),
    (53190113,15), (53155703,15), (53121293,15), (53086884,15), (53052477,15), (53018070,15), (52983665,15), (52949260,15), (52914857,15), (52880455,15), (52846054,15), (52811654,15), (52777255,15), (52742857,15), (52708460,15), (52674064,15),
    (52639670,15), (52605276,15), (52570884,15), (52536492,15), (52502102,15), (52467713,15), (52433324,15), (52398937,15), (52364551,15), (52330166,15), (52295782,15), (52261399,15), (52227018,15), (52192637,15), (52158257,15), (52123879,15),
    (52089501,15), (52055125,15), (52020750,15), (51986375,15), (51952002,15), (51917630,15), (51883259,15), (51848889,15), (51814520,15), (51780153,15), (51745786,15), (51711420,15), (51677056,15), (51642692,15), (51608330,15), (51573968,15),
    (51539608,15), (51505249,15), (51470891,15), (51436534,15), (51402178,15), (51367823,15), (51333469,15), (51299116,15), (51264765,15), (51230414,15), (51196064,15), (51161716,15), (51127368,15), (51093022,15), (51058677,15), (51024333,15),
    (50989990,15), (50955648,15), (50921307,15), (50886967,15), (50852628,15), (50818290,15), (50783954,15), (50749618,15), (50715283,15), (50680950,15), (50646618,15), (50612286,15), (50577956,15), (50543627,15), (50509299,15), (50474972,15),
    (50440646,15), (50406321,15), (50371997,15), (50337675,15), (50303353,15), (50269032,15), (50234713,15), (50200394,15), (50166077,15), (50131761,15), (50097445,15), (50063131,15), (50028818,15), (49994506,15), (49960195,15), (49925885,15),
    (49891577,15), (49857269,15), (49822962,15), (49788657,15), (49754352,15), (49720049,15), (49685746,15), (49651445,15), (49617145,15), (49582846,15), (49548548,15), (49514251,15), (49479955,15), (49445660,15), (49411366,15), (49377073,15),
    (49342782,15), (49308491,15), (49274202,15), (49239913,15), (49205626,15), (49171339,15), (49137054,15), (49102770,15), (49068487,15), (49034205,15), (48999924,15), (48965644,15), (48931365,15), (48897087,15), (48862811,15), (48828535,15),
    (48794261,15), (48759987,15), (48725715,15), (48691443,15), (48657173,15), (48622904,15), (48588636,15), (48554369,15), (48520103,15), (48485838,15), (48451574,15), (48417311,15), (48383050,15), (48348789,15), (48314529,15), (48280271,15),
    (48246014,15), (48211757,15), (48177502,15), (48143248,15), (48108995,15), (48074742,15), (48040491,15), (48006242,15), (47971993,15), (47937745,15), (47903498,15), (47869252,15), (47835008,15), (47800764,15), (47766522,15), (47732280,15),
    (47698040,15), (47663801,15), (47629563,15), (47595326,15), (47561089,15), (47526854,15), (47492621,15), (47458388,15), (47424156,15), (47389925,15), (47355696,15), (47321467,15), (47287239,15), (47253013,15), (47218788,15), (47184563,15),
    (47150340,15), (47116118,15), (47081897,15), (47047677,15), (47013458,15), (46979240,15), (46945023,15), (46910807,15), (46876593,15), (46842379,15), (46808166,15), (46773955,15), (46739744,15), (46705535,15), (46671327,15), (46637119,15),
    (46602913,15), (46568708,15), (46534504,15), (46500301,15), (46466099,15), (46431898,15), (46397699,15), (46363500,15), (46329302,15), (46295106,15), (46260910,15), (46226716,15), (46192522,15), (46158330,15), (46124139,15), (46089949,15),
    (46055760,15), (46021571,15), (45987385,15), (45953199,15), (45919014,15), (45884830,15), (45850647,15), (45816466,15), (45782285,15), (45748105,15), (45713927,15), (45679750,15), (45645573,15), (45611398,15), (45577224,15), (45543051,15),
    (45508879,15), (45474708,15), (45440538,15), (45406369,15), (45372201,15), (45338034,15), (45303869,15), (45269704,15), (45235540,15), (45201378,15), (45167216,15), (45133056,15), (45098897,15), (45064739,15), (45030581,15), (44996425,15),
    (44962270,15), (44928116,15), (44893963,15), (44859812,15), (44825661,15), (44791511,15), (44757362,15), (44723215,15), (44689068,15), (44654923,15), (44620778,15), (44586635,15), (44552493,15), (44518352,15), (44484212,15), (44450072,15),
    (44415934,15), (44381797,15), (44347662,15), (44313527,15), (44279393,15), (44245260,15), (44211129,15), (44176998,15), (44142869,15), (44108740,15), (44074613,15), (44040486,15), (44006361,15), (43972237,15), (43938114,15), (43903992,15),
    (43869871,15), (43835751,15), (43801632,15), (43767514,15), (43733397,15), (43699282,15), (43665167,15), (43631053,15), (43596941,15), (43562829,15), (43528719,15), (43494610,15), (43460502,15), (43426394,15), (43392288,15), (43358183,15),
    (43324079,15), (43289976,15), (43255874,15), (43221773,15), (43187674,15), (43153575,15), (43119477,15), (43085381,15), (43051285,15), (43017191,15), (42983097,15), (42949005,15), (42914914,15), (42880824,15), (42846734,15), (42812646,15),
    (42778559,15), (42744473,15), (42710388,15), (42676304,15), (42642222,15), (42608140,15), (42574059,15), (42539980,15), (42505901,15), (42471824,15), (42437747,15), (42403672,15), (42369598,15), (42335524,15), (42301452,15), (42267381,15),
    (42233311,15), (42199242,15), (42165174,15), (42131107,15), (42097041,15), (42062977,15), (42028913,15), (41994850,15), (41960789,15), (41926728,15), (41892669,15), (41858610,15), (41824553,15), (41790497,15), (41756441,15), (41722387,15),
    (41688334,15), (41654282,15), (41620231,15), (41586181,15), (41552132,15), (41518084,15), (41484038,15), (41449992,15), (41415947,15), (41381904,15), (41347861,15), (41313820,15), (41279779,15), (41245740,15), (41211702,15), (41177665,15),
    (41143628,15), (41109593,15), (41075559,15), (41041526,15), (41007494,15), (40973464,15), (40939434,15), (40905405,15), (40871377,15), (40837351,15), (40803325,15), (40769301,15), (40735277,15), (40701255,15), (40667233,15), (40633213,15),
    (40599194,15), (40565176,15), (40531159,15), (40497143,15), (40463128,15), (40429114,15), (40395101,15), (40361089,15), (40327078,15), (40293068,15), (40259060,15), (40225052,15), (40191046,15), (40157040,15), (40123036,15), (40089032,15),
    (40055030,15), (40021029,15), (39987029,15), (39953029,15), (39919031,15), (39885034,15), (39851038,15), (39817043,15), (39783050,15), (39749057,15), (39715065,15), (39681074,15), (39647085,15), (39613096,15), (39579109,15), (39545122,15),
    (39511137,15), (39477152,15), (39443169,15), (39409187,15), (39375206,15), (39341226,15), (39307246,15), (39273268,15), (39239292,15), (39205316,15), (39171341,15), (39137367,15), (39103394,15), (39069423,15), (39035452,15), (39001482,15),
    (38967514,15), (38933546,15), (38899580,15), (38865615,15), (38831650,15), (38797687,15), (38763725,15), (38729764,15), (38695804,15), (38661845,15), (38627887,15), (38593930,15), (38559974,15), (38526019,15), (38492066,15), (38458113,15),
    (38424161,15), (38390211,15), (38356261,15), (38322313,15), (38288365,15), (38254419,15), (38220474,15), (38186529,15), (38152586,15), (38118644,15), (38084703,15), (38050763,15), (38016824,15), (37982886,15), (37948949,15), (37915013,15),
    (37881079,15), (37847145,15), (37813212,15), (37779281,15), (37745350,15), (37711421,15), (37677492,15), (37643565,15), (37609638,15), (37575713,15), (37541789,15), (37507866,15), (37473944,15), (37440022,15), (37406102,15), (37372184,15),
    (37338266,15), (37304349,15), (37270433,15), (37236518,15), (37202605,15), (37168692,15), (37134780,15), (37100870,15), (37066960,15), (37033052,15), (36999144,15), (36965238,15), (36931333,15), (36897429,15), (36863525,15), (36829623,15),
    (36795722,15), (36761822,15), (36727923,15), (36694025,15), (36660129,15), (36626233,15), (36592338,15), (36558444,15), (36524552,15), (36490660,15), (36456770,15), (36422880,15), (36388992,15), (36355104,15), (36321218,15), (36287333,15),
    (36253448,15), (36219565,15), (36185683,15), (36151802,15), (36117922,15), (36084043,15), (36050165,15), (36016288,15), (35982412,15), (35948538,15), (35914664,15), (35880791,15), (35846920,15), (35813049,15), (35779180,15), (35745311,15),
    (35711444,15), (35677577,15), (35643712,15), (35609848,15), (35575984,15), (35542122,15), (35508261,15), (35474401,15), (35440542,15), (35406684,15), (35372827,15), (35338971,15), (35305117,15), (35271263,15), (35237410,15), (35203558,15),
    (35169708,15), (35135858,15), (35102010,15), (35068162,15), (35034316,15), (35000471,15), (34966626,15), (34932783,15), (34898941,15), (34865100,15), (34831260,15), (34797420,15), (34763582,15), (34729746,15), (34695910,15), (34662075,15),
    (34628241,15), (34594408,15), (34560576,15), (34526746,15), (34492916,15), (34459088,15), (34425260,15), (34391434,15), (34357608,15), (34323784,15), (34289960,15), (34256138,15), (34222317,15), (34188497,15), (34154678,15), (34120860,15),
    (34087043,15), (34053227,15), (34019412,15), (33985598,15), (33951785,15), (33917973,15), (33884162,15), (33850353,15), (33816544,15), (33782736,15), (33748930,15), (33715124,15), (33681320,15), (33647516,15), (33613714,15), (33579913,15),
    (33546113,15), (33512313,15), (33478515,15), (33444718,15), (33410922,15), (33377127,15), (33343333,15), (33309540,15), (33275748,15), (33241957,15), (33208167,15), (33174379,15), (33140591,15), (33106804,15), (33073019,15), (33039234,15),
    (33005451,15), (32971668,15), (32937887,15), (32904106,15), (32870327,15), (32836549,15), (32802772,15), (32768995,15), (32735220,15), (32701446,15), (32667673,15), (32633901,15), (32600130,15), (32566360,15), (32532591,15), (32498824,15),
    (32465057,15), (32431291,15), (32397526,15), (32363763,15), (32330000,15), (32296239,15), (32262478,15), (32228719,15), (32194960,15), (32161203,15), (32127447,15), (32093691,15), (32059937,15), (32026184,15), (31992432,15), (31958681,15),
    (31924931,15), (31891182,15), (31857434,15), (31823687,15), (31789941,15), (31756196,15), (31722453,15), (31688710,15), (31654968,15), (31621228,15), (31587488,15), (31553749,15), (31520012,15), (31486275,15), (31452540,15), (31418806,15),
    (31385072,15), (31351340,15), (31317609,15), (31283879,15), (31250150,15), (31216421,15), (31182694,15), (31148968,15), (31115243,15), (31081520,15), (31047797,15), (31014075,15), (30980354,15), (30946634,15), (30912916,15), (30879198,15),
    (30845481,15), (30811766,15), (30778051,15), (30744338,15), (30710625,15), (30676914,15), (30643204,15), (30609494,15), (30575786,15), (30542079,15), (30508373,15), (30474667,15), (30440963,15), (30407260,15), (30373558,15), (30339857,15),
    (30306157,15), (30272459,15), (30238761,15), (30205064,15), (30171368,15), (30137674,15), (30103980,15), (30070287,15), (30036596,15), (30002905,15), (29969216,15), (29935527,15), (29901840,15), (29868153,15), (29834468,15), (29800784,15),
    (29767101,15), (29733418,15), (29699737,15), (29666057,15), (29632378,15), (29598700,15), (29565023,15), (29531347,15), (29497672,15), (29463998,15), (29430326,15), (29396654,15), (29362983,15), (29329313,15), (29295645,15), (29261977,15),
    (29228310,15), (29194645,15), (29160980,15), (29127317,15), (29093655,15), (29059993,15), (29026333,15), (28992674,15), (28959015,15), (28925358,15), (28891702,15), (28858047,15), (28824393,15), (28790740,15), (28757088,15), (28723437,15),
    (28689787,15), (28656138,15), (28622490,15), (28588843,15), (28555198,15), (28521553,15), (28487909,15), (28454267,15), (28420625,15), (28386985,15), (28353345,15), (28319707,15), (28286069,15), (28252433,15), (28218797,15), (28185163,15),
    (28151530,15), (28117898,15), (28084266,15), (28050636,15), (28017007,15), (27983379,15), (27949752,15), (27916126,15), (27882501,15), (27848877,15), (27815254,15), (27781633,15), (27748012,15), (27714392,15), (27680773,15), (27647156,15),
    (27613539,15), (27579923,15), (27546309,15), (27512695,15), (27479083,15), (27445471,15), (27411861,15), (27378252,15), (27344643,15), (27311036,15), (27277430,15), (27243825,15), (27210220,15), (27176617,15), (27143015,15), (27109414,15),
    (27075814,15), (27042215,15), (27008617,15), (26975020,15), (26941424,15), (26907830,15), (26874236,15), (26840643,15), (26807051,15), (26773461,15), (26739871,15), (26706282,15), (26672695,15), (26639108,15), (26605523,15), (26571938,15),
    (26538355,15), (26504773,15), (26471191,15), (26437611,15), (26404032,15), (26370454,15), (26336876,15), (26303300,15), (26269725,15), (26236151,15), (26202578,15), (26169006,15), (26135435,15), (26101865,15), (26068296,15), (26034728,15),
    (26001162,15), (25967596,15), (25934031,15), (25900467,15), (25866905,15), (25833343,15), (25799782,15), (25766223,15), (25732664,15), (25699107,15), (25665550,15), (25631995,15), (25598441,15), (25564887,15), (25531335,15), (25497784,15),
    (25464233,15), (25430684,15), (25397136,15), (25363589,15), (25330043,15), (25296498,15), (25262954,15), (25229411,15), (25195869,15), (25162328,15), (25128788,15), (25095249,15), (25061711,15), (25028175,15), (24994639,15), (24961104,15),
    (24927571,15), (24894038,15), (24860506,15), (24826976,15), (24793446,15), (24759918,15), (24726390,15), (24692864,15), (24659339,15), (24625814,15), (24592291,15), (24558769,15), (24525247,15), (24491727,15), (24458208,15), (24424690,15),
    (24391173,15), (24357657,15), (24324142,15), (24290628,15), (24257115,15), (24223603,15), (24190092,15), (24156582,15), (24123073,15), (24089565,15), (24056059,15), (24022553,15), (23989048,15), (23955545,15), (23922042,15), (23888540,15),
    (23855040,15), (23821540,15), (23788042,15), (23754544,15), (23721048,15), (23687553,15), (23654058,15), (23620565,15), (23587073,15), (23553581,15), (23520091,15), (23486602,15), (23453114,15), (23419627,15), (23386140,15), (23352655,15),
    (23319171,15), (23285688,15), (23252206,15), (23218726,15), (23185246,15), (23151767,15), (23118289,15), (23084812,15), (23051336,15), (23017862,15), (22984388,15), (22950915,15), (22917444,15), (22883973,15), (22850503,15), (22817035,15),
    (22783567,15), (22750101,15), (22716636,15), (22683171,15), (22649708,15), (22616245,15), (22582784,15), (22549324,15), (22515865,15), (22482406,15), (22448949,15), (22415493,15), (22382038,15), (22348584,15), (22315131,15), (22281679,15),
    (22248228,15), (22214778,15), (22181329,15), (22147881,15), (22114434,15), (22080988,15), (22047543,15), (22014100,15), (21980657,15), (21947215,15), (21913775,15), (21880335,15), (21846896,15), (21813459,15), (21780022,15), (21746587,15),
    (21713152,15), (21679719,15), (21646286,15), (21612855,15), (21579424,15), (21545995,15), (21512567,15), (21479139,15), (21445713,15), (21412288,15), (21378864,15), (21345441,15), (21312018,15), (21278597,15), (21245177,15), (21211758,15),
    (21178340,15), (21144923,15), (21111507,15), (21078092,15), (21044678,15), (21011266,15), (20977854,15), (20944443,15), (20911033,15), (20877624,15), (20844217,15), (20810810,15), (20777404,15), (20744000,15), (20710596,15), (20677194,15),
    (20643792,15), (20610392,15), (20576992,15), (20543594,15), (20510196,15), (20476800,15), (20443404,15), (20410010,15), (20376617,15), (20343224,15), (20309833,15), (20276443,15), (20243054,15), (20209666,15), (20176278,15), (20142892,15),
    (20109507,15), (20076123,15), (20042740,15), (20009358,15), (19975977,15), (19942597,15), (19909218,15), (19875841,15), (19842464,15), (19809088,15), (19775713,15), (19742339,15), (19708967,15), (19675595,15), (19642224,15), (19608854,15),
    (19575486,15), (19542118,15), (19508752,15), (19475386,15), (19442022,15), (19408658,15), (19375296,15), (19341934,15), (19308574,15), (19275214,15), (19241856,15), (19208499,15), (19175142,15), (19141787,15), (19108433,15), (19075080,15),
    (19041727,15), (19008376,15), (18975026,15), (18941677,15), (18908329,15), (18874982,15), (18841636,15), (18808291,15), (18774947,15), (18741604,15), (18708262,15), (18674921,15), (18641581,15), (18608242,15), (18574904,15), (18541568,15),
    (18508232,15), (18474897,15), (18441563,15), (18408231,15), (18374899,15), (18341568,15), (18308239,15), (18274910,15), (18241583,15), (18208256,15), (18174931,15), (18141606,15), (18108283,15), (18074960,15), (18041639,15), (18008318,15),
    (17974999,15), (17941681,15), (17908363,15), (17875047,15), (17841732,15), (17808418,15), (17775104,15), (17741792,15), (17708481,15), (17675171,15), (17641862,15), (17608554,15), (17575247,15), (17541941,15), (17508636,15), (17475332,15),
    (17442029,15), (17408727,15), (17375426,15), (17342126,15), (17308827,15), (17275529,15), (17242232,15), (17208937,15), (17175642,15), (17142348,15), (17109055,15), (17075764,15), (17042473,15), (17009183,15), (16975895,15), (16942607,15),
    (16909321,15), (16876035,15), (16842750,15), (16809467,15), (16776185,15), (16742903,15), (16709623,15), (16676343,15), (16643065,15), (16609787,15), (16576511,15), (16543236,15), (16509962,15), (16476688,15), (16443416,15), (16410145,15),
    (16376875,15), (16343605,15), (16310337,15), (16277070,15), (16243804,15), (16210539,15), (16177275,15), (16144012,15), (16110750,15), (16077489,15), (16044229,15), (16010970,15), (15977712,15), (15944455,15), (15911199,15), (15877944,15),
    (15844690,15), (15811438,15), (15778186,15), (15744935,15), (15711685,15), (15678437,15), (15645189,15), (15611942,15), (15578697,15), (15545452,15), (15512208,15), (15478966,15), (15445724,15), (15412484,15), (15379244,15), (15346006,15),
    (15312768,15), (15279532,15), (15246296,15), (15213062,15), (15179828,15), (15146596,15), (15113365,15), (15080134,15), (15046905,15), (15013677,15), (14980449,15), (14947223,15), (14913998,15), (14880774,15), (14847551,15), (14814328,15),
    (14781107,15), (14747887,15), (14714668,15), (14681450,15), (14648233,15), (14615017,15), (14581802,15), (14548588,15), (14515375,15), (14482163,15), (14448952,15), (14415742,15), (14382533,15), (14349325,15), (14316118,15), (14282912,15),
    (14249708,15), (14216504,15), (14183301,15), (14150099,15), (14116899,15), (14083699,15), (14050500,15), (14017302,15), (13984106,15), (13950910,15), (13917716,15), (13884522,15), (13851329,15), (13818138,15), (13784947,15), (13751758,15),
    (13718569,15), (13685382,15), (13652195,15), (13619010,15), (13585825,15), (13552642,15), (13519460,15), (13486278,15), (13453098,15), (13419919,15), (13386740,15), (13353563,15), (13320387,15), (13287211,15), (13254037,15), (13220864,15),
    (13187692,15), (13154521,15), (13121350,15), (13088181,15), (13055013,15), (13021846,15), (12988680,15), (12955515,15), (12922351,15), (12889188,15), (12856026,15), (12822865,15), (12789705,15), (12756546,15), (12723388,15), (12690231,15),
    (12657075,15), (12623920,15), (12590766,15), (12557613,15), (12524462,15), (12491311,15), (12458161,15), (12425012,15), (12391864,15), (12358718,15), (12325572,15), (12292427,15), (12259283,15), (12226141,15), (12192999,15), (12159858,15),
    (12126719,15), (12093580,15), (12060443,15), (12027306,15), (11994171,15), (11961036,15), (11927902,15), (11894770,15), (11861638,15), (11828508,15), (11795378,15), (11762250,15), (11729123,15), (11695996,15), (11662871,15), (11629746,15),
    (11596623,15), (11563501,15), (11530379,15), (11497259,15), (11464140,15), (11431021,15), (11397904,15), (11364788,15), (11331673,15), (11298558,15), (11265445,15), (11232333,15), (11199222,15), (11166112,15), (11133003,15), (11099895,15),
    (11066787,15), (11033681,15), (11000576,15), (10967472,15), (10934369,15), (10901267,15), (10868166,15), (10835066,15), (10801967,15), (10768869,15), (10735772,15), (10702676,15), (10669581,15), (10636487,15), (10603394,15), (10570303,15),
    (10537212,15), (10504122,15), (10471033,15), (10437945,15), (10404858,15), (10371773,15), (10338688,15), (10305604,15), (10272521,15), (10239440,15), (10206359,15), (10173279,15), (10140200,15), (10107123,15), (10074046,15), (10040970,15),
    (10007896,15), (9974822,15), (9941750,15), (9908678,15), (9875607,15), (9842538,15), (9809469,15), (9776402,15), (9743335,15), (9710270,15), (9677205,15), (9644142,15), (9611079,15), (9578018,15), (9544957,15), (9511898,15),
    (9478840,15), (9445782,15), (9412726,15), (9379670,15), (9346616,15), (9313563,15), (9280510,15), (9247459,15), (9214409,15), (9181359,15), (9148311,15), (9115264,15), (9082218,15), (9049172,15), (9016128,15), (8983085,15),
    (8950043,15), (8917001,15), (8883961,15), (8850922,15), (8817884,15), (8784847,15), (8751811,15), (8718776,15), (8685741,15), (8652708,15), (8619676,15), (8586645,15), (8553615,15), (8520586,15), (8487558,15), (8454531,15),
    (8421505,15), (8388480,15), (8355456,15), (8322433,15), (8289411,15), (8256390,15), (8223370,15), (8190351,15), (8157333,15), (8124316,15), (8091301,15), (8058286,15), (8025272,15), (7992259,15), (7959247,15), (7926236,15),
    (7893226,15), (7860218,15), (7827210,15), (7794203,15), (7761197,15), (7728192,15), (7695189,15), (7662186,15), (7629184,15), (7596183,15), (7563184,15), (7530185,15), (7497187,15), (7464191,15), (7431195,15), (7398200,15),
    (7365207,15), (7332214,15), (7299222,15), (7266232,15), (7233242,15), (7200253,15), (7167266,15), (7134279,15), (7101294,15), (7068309,15), (7035326,15), (7002343,15), (6969361,15), (6936381,15), (6903401,15), (6870423,15),
    (6837445,15), (6804469,15), (6771493,15), (6738519,15), (6705545,15), (6672573,15), (6639602,15), (6606631,15), (6573662,15), (6540693,15), (6507726,15), (6474760,15), (6441794,15), (6408830,15), (6375866,15), (6342904,15),
    (6309943,15), (6276982,15), (6244023,15), (6211065,15), (6178107,15), (6145151,15), (6112196,15), (6079241,15), (6046288,15), (6013336,15), (5980385,15), (5947434,15), (5914485,15), (5881537,15), (5848590,15), (5815643,15),
    (5782698,15), (5749754,15), (5716811,15), (5683869,15), (5650927,15), (5617987,15), (5585048,15), (5552110,15), (5519173,15), (5486237,15), (5453301,15), (5420367,15), (5387434,15), (5354502,15), (5321571,15), (5288641,15),
    (5255712,15), (5222784,15), (5189857,15), (5156931,15), (5124006,15), (5091081,15), (5058158,15), (5025236,15), (4992315,15), (4959395,15), (4926476,15), (4893558,15), (4860641,15), (4827725,15), (4794810,15), (4761896,15),
    (4728983,15), (4696071,15), (4663160,15), (4630250,15), (4597341,15), (4564434,15), (4531527,15), (4498621,15), (4465716,15), (4432812,15), (4399909,15), (4367007,15), (4334106,15), (4301206,15), (4268307,15), (4235409,15),
    (4202513,15), (4169617,15), (4136722,15), (4103828,15), (4070935,15), (4038043,15), (4005152,15), (3972263,15), (3939374,15), (3906486,15), (3873599,15), (3840713,15), (3807828,15), (3774945,15), (3742062,15), (3709180,15),
    (3676299,15), (3643419,15), (3610541,15), (3577663,15), (3544786,15), (3511910,15), (3479036,15), (3446162,15), (3413289,15), (3380417,15), (3347547,15), (3314677,15), (3281808,15), (3248940,15), (3216074,15), (3183208,15),
    (3150343,15), (3117480,15), (3084617,15), (3051755,15), (3018894,15), (2986035,15), (2953176,15), (2920318,15), (2887462,15), (2854606,15), (2821751,15), (2788898,15), (2756045,15), (2723193,15), (2690343,15), (2657493,15),
    (2624644,15), (2591797,15), (2558950,15), (2526104,15), (2493260,15), (2460416,15), (2427574,15), (2394732,15), (2361891,15), (2329052,15), (2296213,15), (2263376,15), (2230539,15), (2197703,15), (2164869,15), (2132035,15),
    (2099203,15), (2066371,15), (2033540,15), (2000711,15), (1967882,15), (1935055,15), (1902228,15), (1869402,15), (1836578,15), (1803754,15), (1770932,15), (1738110,15), (1705290,15), (1672470,15), (1639651,15), (1606834,15),
    (1574017,15), (1541202,15), (1508387,15), (1475574,15), (1442761,15), (1409950,15), (1377139,15), (1344330,15), (1311521,15), (1278713,15), (1245907,15), (1213101,15), (1180297,15), (1147493,15), (1114691,15), (1081889,15),
    (1049089,15), (1016289,15), (983491,15), (950693,15), (917897,15), (885101,15), (852307,15), (819513,15), (786721,15), (753929,15), (721139,15), (688349,15), (655561,15), (622773,15), (589987,15), (557201,15),
    (524417,15), (491633,15), (458851,15), (426069,15), (393289,15), (360509,15), (327731,15), (294953,15), (262177,15), (229401,15), (196627,15), (163853,15), (131081,15), (98309,15), (65539,15), (32769,15),
    ];
