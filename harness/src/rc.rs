//! Troika round constants as trits: RC[round][9*slice+column] (as published; pinned by the known answers).
pub const RC: [&str; 24] = [
    "222212010110201011001211100202102221022001221010122201221121120202000021121010211002222011212201222010220211212100210012211101022022202210002100111221010111101221010201201222210000210211202100010212012102021001202220102010212122112022100202101",
    "111022020102110011120112011120222021121021021002000000110010001102000211012012111010001022020210210012200001022211010212221022020121010011012220010012111200021021221210002000221220012210021222011112011221012022101210101121122210200011210201112",
    "020212112112222000001101110011000122010221222212110010202012002221100202222121020202022022121200001021121010201002222211012200221012210211212010010011010000010020200100102102000020002010200120112202200221200010210121102002110112001110022221122",
    "122022010002000210220012100101221210011200221012220211212110210012011001020020200220002100201121011012202200012200011122211111111222000001111110011100022011222220222110010022212000122201211221120100102020100022211102222222211200000220221002200",
    "011112011111012021002010120110111100200010221001102111101010120202121101122220100211012101111011220102002122122001200002122021021202020002111210121121022110002011212220122010112022211022102221111101222200201210110010122002001122100021210112212",
    "222021000101020121012221012212121212002121211201221200200200120000002202100022002012220100102112100020100212201101120222000221021112211001211021202101102112020010102110201220111210222211020120221121001012002100110201010101211121211102101202210",
    "021010111110221010021111220111201122211202211220210120120202100001122012011212200022010211220212010120221011101011201202102200012001011120220101121002110202111111222120001112012111112001020012220220222110000022212200222200210220110100102200200",
    "021010001210220212120100222110101222210211210210010020001000100110021000102110121020110112021200022122121221000021001120210101221202211200110120222100101022110012211212022020011100010211222102010112102111020200122122102220000101211101011102202",
    "101211002021101210221101120112100220220211200000210221002100111111010110002021002220220112210002221011222221202110020112112101220000221221102210002111111221120001102022111012201222012220211202110210212111000022022220220002010001120110211220201",
    "010120111121100210100121102200210111010102012021222100122012110222201011120121101120010100222201201220120000222002102221101001222102002212102002102202001001001020000000220100002202102022002002200100002012002020100200211101000112202021121201221",
    "001100201101021012002200210202010100221111201212201200110220022101101021120002201022122021211002022201210202120120222210001020211210222210020120211101001212202002110201001111211001101001201002002001010000020120200201001100011001022110200211211",
    "200110000222102202222101000202122022022202000002101010021022120110011010202010022221110122022220122002012022100100101110000010122200101121112010200212012200121002212212112100002000212020012121110221120221112021012212120212002111221201121100102",
    "200120021012202010212201112020222112112022200002102111021000122100121220110211022201011112121101010120102121100120220120201002001111010021102020111112211210011020021010120010221102202112111002100022211012222221012100021211212212200010000211100",
    "202112221022101121011120202201121120022200022022111220001221121112202000211201012110201111011212102002012202000102201011021021100100001120002011222120122112010020202010102121111220220201120000112222101121102120200110211102101012210022112011121",
    "202021101111221100101102120010010212200002020211020212211122220022111011021222000102011111022121002111022111122111220110221122201112011122112021110202121221222221000010021120100111020100112121100120120120200000001101000011002020110210211201000",
    "010201020102211221121120102000020122010201022212211212200020010211200202010220021112101011210222102020122102211020101121121110200000221201002210101012112212111001002022200010202111102222120211202011210211122020012112010221002012111110101020020",
    "212220002220111122212210111200012011221120022102022021102200021111011211202002000211000012111220121021122012001012200220112210202221010220221222100010012112100021000212210122120012120012221112222122211102001222212022210201102210212011110021021",
    "022110000011212200112010212122012022102200101101012010002110010221112002112212201101000222002022221100202022121021201022002101210101021122212201011200221102220212111210222021020121020021012020010210110202002001221000022201120222122221022001021",
    "010120200221101100212100021122212211011200021002221210112220222021110021021222110002012212220102000112122011120102221120121222020011011010210000022001200220122020202022012121200201121120012200022222211222000220111112202210011200111012222112012",
    "102202001201001022001000210120022102102021100002221122022222012002001200200022020001220010112221201021120101201020111001221212202200210200010100201101201012001001110220001121101111200100101222000011211110112002020022200210022110101121210210201",
    "220000210221102100112110010120012001102220221011210011202021012211220212020120221111001012202200112200012121211121121202100001112012011112000021012210210212010000021010200210222200100120112000200222212000220201212200110110212100001022212010212",
    "201012020221110112012220022002111020101122121110210020221001102011101012121202111121112120100210110101102000210012012101020001222220112210012221011022121200111021122112101010200222122200222001110221121121112000000212210002120011221212212100210",
    "002211101222122201212001120111221220211100020212222202220100100212100001122212011211201022000201210112010122022011122000221112112212210001000011210020112021101222121101212020101111111110100000020202000202121012022222210102000212222012120101201",
    "110111002120012211212222020010101010201212122210112101212020221111112012200012002211120202122121122200020011111200211001220111202222211210200220020200201002100011011012110000011012200110012212102022002202200102000012022010120100211100101112220",
];
