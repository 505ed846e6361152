// holidays of the shipped exchange calendar and working weekends of the interbank calendar (Excel serials), as published up to the last year covered
static const int SNAP_H[] = {38355,38390,38391,38392,38393,38394,38397,38398,38474,38475,38476,38477,38478,38628,38629,38630,38631,38632,38719,38720,38743,38744,38747,38748,38749,38750,38751,38838,38839,38840,38841,38842,38992,38993,38994,38995,38996,39083,39084,39085,39132,39133,39134,39135,39136,39203,39204,39205,39206,39209,39356,39357,39358,39359,39360,39447,39448,39484,39485,39486,39489,39490,39542,39569,39570,39608,39706,39720,39721,39722,39723,39724,39814,39815,39839,39840,39841,39842,39843,39909,39934,39961,39962,40087,40088,40091,40092,40093,40094,40179,40224,40225,40226,40227,40228,40273,40301,40343,40344,40345,40443,40444,40445,40452,40455,40456,40457,40458,40546,40576,40577,40578,40581,40582,40637,40638,40665,40700,40798,40819,40820,40821,40822,40823,40910,40911,40931,40932,40933,40934,40935,41001,41002,41003,41029,41030,41082,41183,41184,41185,41186,41187,41275,41276,41277,41316,41317,41318,41319,41320,41368,41369,41393,41394,41395,41435,41436,41437,41536,41537,41548,41549,41550,41551,41554,41640,41670,41673,41674,41675,41676,41736,41760,41761,41792,41890,41913,41914,41915,41918,41919,42005,42006,42053,42054,42055,42058,42059,42100,42125,42177,42250,42251,42278,42279,42282,42283,42284,42370,42408,42409,42410,42411,42412,42464,42492,42530,42531,42628,42629,42646,42647,42648,42649,42650,42737,42762,42765,42766,42767,42768,42828,42829,42856,42884,42885,43010,43011,43012,43013,43014,43101,43146,43147,43150,43151,43152,43195,43196,43220,43221,43269,43367,43374,43375,43376,43377,43378,43465,43466,43500,43501,43502,43503,43504,43560,43586,43587,43588,43623,43721,43739,43740,43741,43742,43745,43831,43854,43857,43858,43859,43860,43861,43927,43952,43955,43956,44007,44008,44105,44106,44109,44110,44111,44112,44197,44238,44239,44242,44243,44244,44291,44319,44320,44321,44361,44459,44460,44470,44473,44474,44475,44476,44564,44592,44593,44594,44595,44596,44655,44656,44683,44684,44685,44715,44816,44837,44838,44839,44840,44841,44928,44949,44950,44951,44952,44953,45021,45047,45048,45049,45099,45100,45198,45201,45202,45203,45204,45205,45292,45331,45334,45335,45336,45337,45338,45386,45387,45413,45414,45415,45453,45551,45552,45566,45567,45568,45569,45572,45658,45685,45686,45687,45688,45691,45692,45751,45778,45779,45782,45810,45931,45932,45933,45936,45937,45938,};
static const int SNAP_W[] = {38388,38389,38472,38480,38633,38634,38717,38745,38836,38837,38990,39081,39082,39130,39138,39200,39201,39354,39355,39445,39480,39481,39572,39718,39719,39817,39837,39845,39964,40083,40096,40229,40230,40341,40342,40440,40446,40447,40460,40573,40586,40635,40824,40825,40908,40929,40937,40999,41000,41027,41181,41279,41280,41321,41322,41371,41391,41392,41433,41434,41539,41546,41559,41665,41678,41763,41910,41923,42008,42050,42063,42253,42287,42406,42414,42533,42631,42651,42652,42757,42770,42826,42882,43008,43142,43155,43198,43218,43372,43373,43463,43498,43499,43583,43590,43737,43750,43849,43947,43960,44010,44101,44114,44234,44247,44311,44324,44457,44465,44478,44590,44591,44653,44675,44688,44842,44843,44954,44955,45039,45052,45102,45206,45207,45326,45340,45389,45410,45423,45549,45564,45577,45683,45696,45774,45928,45941,};
