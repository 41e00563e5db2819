/* All graphs of n <= 7 vertices up to isomorphism (networkx graph atlas); bit (j*(j-1)/2+i) is edge i<j. */
static const unsigned int atlas1[] = { 0 };
static const unsigned int atlas2[] = { 0, 1 };
static const unsigned int atlas3[] = { 0, 4, 3, 7 };
static const unsigned int atlas4[] = { 0, 32, 48, 33, 52, 56, 13, 60, 45, 47, 63 };
static const unsigned int atlas5[] = { 0, 512, 5, 514, 7, 560, 608, 517, 564, 45, 960, 624, 101, 519, 47, 992, 103, 628, 433, 613, 729, 437, 945, 993, 621, 222, 1012, 1016, 757, 478, 1017, 1005, 1021, 1023 };
static const unsigned int atlas6[] = { 0, 16384, 16392, 20, 52, 1096, 17920, 6656, 16396, 17480, 24648, 15360, 624, 8214, 1076, 1100, 17924, 8274, 25672, 25136, 25184, 628, 740, 613, 31744, 2213, 8715, 8469, 1648, 16437, 17953, 6728, 24652, 26184, 1008, 500, 25410, 621, 435, 32256, 9160, 27232, 1988, 1118, 8598, 8286, 13074, 25099, 25676, 1652, 1520, 2661, 17957, 17524, 1087, 439, 757, 6203, 17392, 6565, 8318, 16884, 22945, 16447, 17515, 2789, 8427, 2032, 21158, 2669, 1524, 2663, 28822, 9906, 17974, 17965, 9829, 25103, 6207, 1005, 1151, 8319, 4535, 2805, 17141, 6263, 1781, 6267, 29350, 17471, 14451, 18416, 5735, 16320, 22309, 18071, 5741, 17908, 27237, 20261, 7781, 22181, 1021, 6463, 6271, 17389, 29366, 22591, 32704, 5743, 18135, 20119, 17535, 11885, 18046, 18238, 7783, 16322, 30309, 7789, 22317, 23211, 22189, 1023, 17405, 2045, 32705, 27381, 18302, 22334, 20213, 15981, 7911, 31155, 32357, 20279, 20286, 30359, 3071, 14783, 18429, 25087, 32407, 24562, 20383, 16355, 24493, 25599, 7679, 32739, 20415, 28535, 20479, 28543, 32759, 32767 };
static const unsigned int atlas7[] = { 0, 1048576, 36, 49152, 322, 33793, 1097728, 1048612, 1048656, 1183748, 20612, 2181, 135173, 549, 1048898, 34049, 1097744, 135240, 49188, 217, 1184032, 49474, 1183749, 220, 613, 31744, 67621, 133284, 68132, 279076, 1184260, 1098241, 1183816, 1314976, 1048725, 1048653, 135244, 1049125, 1097764, 1589281, 1251332, 437, 732, 413984, 20677, 19718, 1184036, 135348, 1394689, 1116312, 135528, 1052852, 1331236, 1183892, 278888, 1048793, 1183920, 1331332, 1327249, 17957, 1184328, 2064384, 135461, 135317, 278677, 1052821, 1184033, 135380, 1048679, 135245, 409745, 135576, 1048940, 1183820, 1184261, 278605, 1183889, 49701, 1589285, 1314913, 1049189, 949, 23814, 757, 19719, 135530, 131509, 263089, 136040, 278745, 1049305, 413988, 4711, 414000, 33206, 27910, 8807, 2663, 602912, 19726, 1182356, 24805, 1329444, 1331364, 1184404, 296011, 68308, 1874944, 49357, 1184037, 67804, 82149, 540901, 1332260, 1048797, 1184021, 135601, 1183893, 278748, 1462277, 135373, 1049308, 263395, 69852, 1049827, 1311843, 1049569, 278757, 1182245, 1065189, 1183956, 1069157, 271523, 1328166, 1183821, 135388, 282821, 135385, 1049080, 413772, 1184340, 1179868, 1311970, 1184332, 1098277, 1315041, 22981, 21703, 68313, 1071524, 18901, 1344618, 1070151, 13109, 1360938, 15237, 539524, 4829, 15244, 1184106, 1332514, 16320, 1333412, 414056, 20984, 1184616, 1250353, 1327466, 20261, 709637, 67805, 67803, 68057, 68316, 1061422, 68568, 1062414, 541493, 1049309, 2064417, 1818660, 1998885, 71897, 135533, 1332262, 203301, 135581, 279032, 281029, 67239, 213209, 70105, 82599, 74407, 199384, 1066087, 147960, 151781, 507941, 135389, 1785893, 1315939, 135672, 672309, 1251873, 1069285, 135900, 37368, 1049081, 1454177, 1184108, 312391, 90279, 1114791, 101925, 1180620, 69387, 144321, 1182373, 608805, 1319873, 312714, 1065464, 1331397, 549031, 1182436, 1150500, 1450689, 52773, 50981, 1050279, 1329508, 52524, 1053176, 1188801, 1771041, 1331301, 214565, 1183964, 1132069, 312869, 798945, 1183961, 1021, 6463, 6271, 17389, 29366, 22591, 32704, 5743, 18135, 20119, 17535, 11885, 18046, 18238, 7783, 16322, 30309, 7789, 22317, 23211, 22189, 33919, 132223, 73855, 135607, 70071, 68341, 527093, 71799, 541429, 279285, 39031, 67317, 160422, 39035, 1049727, 526069, 148213, 1077926, 1310847, 34549, 279405, 1054839, 553638, 530495, 132853, 1054843, 153659, 47219, 1066047, 1049581, 542704, 38503, 280560, 1053111, 540608, 153381, 1114869, 149488, 51184, 1377431, 38509, 542196, 1065717, 546597, 1070885, 1377367, 71271, 530023, 148980, 267885, 136813, 563255, 81856, 1050357, 87845, 55077, 284453, 1377559, 289381, 71277, 544549, 563259, 73317, 50676, 193188, 40549, 1075813, 530029, 1393687, 1070757, 92773, 280052, 541759, 60005, 532069, 53029, 571443, 54949, 2065924, 1184423, 1098736, 804336, 1332390, 1594608, 418343, 1330470, 1098421, 117349, 1182437, 1319591, 1328231, 109157, 1333347, 804261, 1183965, 1150384, 1316067, 1184248, 312995, 378405, 581805, 1331429, 1451205, 1184476, 1164837, 1327469, 1132325, 1139301, 706085, 1251916, 1023, 17405, 2045, 32705, 27381, 18302, 20213, 22334, 7911, 15981, 31155, 32357, 20279, 15247, 30359, 137535, 71999, 71807, 39039, 268415, 541677, 291510, 153663, 160438, 1070311, 1054847, 553654, 1071167, 1049597, 1081280, 38511, 136815, 98240, 267887, 50903, 85655, 50303, 274029, 1054319, 280190, 52887, 146914, 661567, 138855, 1068695, 530031, 280382, 148607, 1064898, 149118, 48610, 77421, 542526, 563263, 1056359, 1066711, 49090, 151191, 153389, 1078885, 40557, 1066111, 1573869, 83582, 536173, 554597, 142957, 63077, 1070893, 73325, 269927, 193204, 743973, 55085, 269933, 138861, 1579071, 83774, 1066814, 81858, 95845, 87853, 532077, 547499, 54957, 101621, 1334566, 101598, 2082308, 2065953, 202407, 169639, 2049604, 611111, 169181, 1461542, 167591, 673383, 1184760, 1131191, 1820196, 1812001, 1143909, 1083230, 1083102, 1804065, 1251548, 438723, 326082, 1139436, 422725, 1655463, 1396261, 1447139, 1141349, 1132453, 602791, 1102439, 1587787, 1199909, 1181688, 1860197, 237220, 675621, 576937, 815324, 1318501, 1339621, 1263397, 1586789, 444005, 1885733, 642597, 1623591, 1426981, 1150630, 1649253, 1103525, 691548, 1787429, 608030, 1773345, 1184249, 1184477, 1462492, 1165093, 937005, 317093, 3071, 14783, 18429, 25087, 32407, 2054816, 1510431, 16355, 24493, 541693, 533501, 529405, 136189, 37885, 1049599, 556993, 92917, 551669, 98241, 149374, 1075957, 153406, 85749, 284478, 544501, 2062432, 48749, 55102, 73447, 1068789, 60149, 162227, 282357, 138983, 1070910, 1064557, 1079731, 1065981, 81517, 532199, 1056487, 555443, 83838, 1180669, 1080933, 85815, 97893, 151285, 87870, 1555328, 95895, 1068855, 282423, 540269, 270055, 85822, 161431, 63923, 523136, 2096128, 203447, 600821, 1885112, 677671, 312943, 1184695, 1340838, 677733, 235111, 1826336, 1048064, 1959684, 1102695, 1622887, 220067, 679717, 706151, 1139445, 1184764, 915104, 1333733, 203768, 2082337, 1251549, 1590253, 1349223, 837223, 1611367, 444013, 1897509, 1336119, 570297, 326195, 1150202, 935845, 1863205, 1341797, 1575917, 1184253, 1014793, 924327, 1842471, 1845989, 1484389, 1920549, 1265445, 602989, 1789477, 1764108, 1740579, 1487461, 125432, 1758896, 778271, 1332455, 228003, 522112, 935527, 680159, 237157, 1184733, 1144421, 1340645, 1592173, 818277, 1252060, 1462524, 1368429, 455051, 128613, 1534284, 1586917, 1191905, 1463004, 1087993, 1530088, 1133421, 1463525, 1139565, 1270501, 937765, 218797, 1013836, 813421, 511344, 642860, 1840371, 1270351, 25599, 1543199, 32663, 20415, 28535, 68607, 533503, 80319, 276927, 542717, 83965, 47551, 51197, 149501, 90623, 549375, 1115135, 97943, 1081133, 1510559, 294701, 539071, 163479, 1510495, 286706, 57330, 1067005, 1073069, 540643, 49123, 1526815, 278499, 57261, 1073663, 2089528, 740325, 1863592, 337727, 298431, 1210853, 1336313, 101885, 217471, 807917, 200189, 676223, 845391, 1185023, 567277, 118253, 103933, 942957, 1372072, 102381, 1575933, 811517, 124653, 658941, 1137133, 600927, 316143, 1449191, 668157, 424839, 1328095, 1778239, 1083389, 302061, 1927781, 980400, 1285733, 2084385, 1146469, 1592301, 360071, 1833072, 1564320, 735631, 813933, 1144471, 1149933, 727545, 224685, 617901, 126381, 936813, 1437040, 2051852, 1956264, 1040997, 604603, 358039, 921580, 388472, 2039688, 1019116, 1828272, 2057612, 1817480, 1032064, 223149, 1140653, 916130, 1431472, 1587117, 1895078, 1883026, 981650, 1304496, 913188, 915816, 1893812, 1927971, 899448, 1940848, 1350648, 834040, 1827956, 907640, 1347564, 782092, 1693356, 1691436, 1462777, 946413, 777840, 260952, 1521377, 1779315, 2082341, 842700, 2063264, 2062768, 2030496, 549887, 85983, 1496427, 1964960, 2063240, 980555, 1571744, 2030000, 98275, 1074175, 2039728, 1046960, 2096133, 167423, 320509, 305149, 567293, 2029456, 566783, 1117183, 2029936, 1570720, 2028976, 1582079, 1048352, 1146519, 837613, 229015, 1084927, 236989, 1463292, 1833864, 879100, 308703, 1091071, 316671, 112479, 1964706, 482172, 1571552, 620247, 1138411, 603775, 1203887, 1986296, 2030226, 1589219, 587479, 380409, 1961764, 818839, 416479, 1789039, 1032096, 1045936, 1582591, 2013076, 1101694, 417515, 818541, 2014113, 1047329, 980581, 1897063, 1454973, 1867365, 1297085, 701663, 1355708, 848621, 1964133, 1564384, 1826416, 1859367, 1048069, 1812083, 1044068, 645822, 1268461, 1031904, 915832, 2010852, 1941360, 1959590, 769829, 2025110, 389625, 904878, 783988, 522068, 1994989, 1497009, 980401, 1779319, 32759, 86015, 2030512, 2013003, 1833904, 2063244, 812031, 200703, 570367, 577503, 634591, 1832523, 2028747, 589527, 229079, 1046091, 913272, 1598463, 1211127, 1833896, 2030476, 1048480, 2030497, 2029460, 794111, 1146733, 1833588, 1571312, 1564592, 1580799, 122622, 2096645, 1564235, 2074227, 2086360, 380413, 2079688, 2018539, 1962865, 1830768, 1961828, 1899000, 2078168, 2093401, 915023, 912747, 1439224, 1700729, 1564528, 2029804, 1570644, 1570721, 2029937, 914936, 2028977, 2028788, 1556448, 913913, 1031664, 1039988, 1814388, 2039532, 2039288, 1697591, 515576, 32767, 98295, 65527, 1421023, 1961803, 1961833, 913400, 1146861, 2092825, 1961841, 1964978, 1961464, 1867768, 1899512, 470911, 945147, 1860607, 2085741, 2093913, 2088408, 2082367, 2080712, 1963892, 1963512, 1939449, 1032011, 2093529, 2078617, 1955769, 1833882, 1048048, 1941496, 1962489, 1830772, 2063243, 2087595, 2079627, 1564396, 516088, 1974265, 1048165, 163839, 2096856, 1963883, 1048500, 1900536, 2096984, 1961835, 2096600, 2096921, 2095001, 1832795, 2080728, 1963513, 1941497, 515807, 1564395, 1556427, 2080737, 2030073, 2007033, 1048056, 229375, 777727, 2096985, 2080729, 1998841, 2097065, 2096632, 2080745, 2088441, 1048060, 1179647, 507903, 2023407, 1961919, 2095611, 1961983, 2088895, 2097087, 2097151 };
static const unsigned int * const atlastab[8] = { 0, atlas1, atlas2, atlas3, atlas4, atlas5, atlas6, atlas7 };
static const int atlasnbr[8] = { 0, 1, 2, 4, 11, 34, 156, 1044 };
