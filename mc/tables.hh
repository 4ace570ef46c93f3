// Filter coefficient tables as published (Ehlers), quoted from the source papers via the implementation at the pinned commit.
#pragma once
static const double gf1_B0[20] = {0.828427,0.732051,0.618034,0.526602,0.455887,0.400720,0.356896,0.321416,0.292186,0.267730,0.246990,0.229192,0.213760,0.200256,0.188343,0.177759,0.168294,0.159780,0.152082,0.145089};
static const double gf1_A1[20] = {0.171573,0.267949,0.381966,0.473398,0.544113,0.599280,0.643104,0.678584,0.707814,0.732270,0.753010,0.770808,0.786240,0.799744,0.811657,0.822241,0.831706,0.840220,0.847918,0.854911};
static const double gf2_B0[20] = {0.834615,0.722959,0.578300,0.457577,0.365017,0.295336,0.242632,0.202250,0.170835,0.146017,0.126125,0.109966,0.096680,0.085633,0.076357,0.068496,0.061779,0.055996,0.050984,0.046612};
static const double gf2_A1[20] = {0.172854,0.299460,0.479080,0.647112,0.791668,0.913103,1.014847,1.100556,1.173357,1.235757,1.289719,1.336777,1.378133,1.414738,1.447346,1.476567,1.502894,1.526729,1.548408,1.568205};
static const double gf2_A2[20] = {-0.007470,-0.022419,-0.057379,-0.104688,-0.156684,-0.208439,-0.257479,-0.302806,-0.344192,-0.381774,-0.415844,-0.446743,-0.474813,-0.500371,-0.523703,-0.545063,-0.564672,-0.582726,-0.599392,-0.614817};
static const double gf3_B0[20] = {0.836701,0.718670,0.558792,0.422292,0.318295,0.242068,0.186612,0.146016,0.115940,0.093340,0.076111,0.062791,0.052354,0.044075,0.037432,0.032045,0.027635,0.023991,0.020956,0.018409};
static const double gf3_A1[20] = {0.173094,0.312814,0.529009,0.749259,0.951680,1.130321,1.285644,1.420251,1.537154,1.639147,1.728632,1.807607,1.877714,1.940297,1.996460,2.047111,2.093000,2.134754,2.172895,2.207865};
static const double gf3_A2[20] = {-0.009987,-0.032617,-0.093283,-0.187130,-0.301899,-0.425875,-0.550960,-0.672371,-0.787614,-0.895601,-0.996056,-1.089148,-1.175270,-1.254918,-1.328618,-1.396887,-1.460217,-1.519058,-1.573824,-1.624889};
static const double gf3_A3[20] = {0.000192,0.001134,0.005483,0.015579,0.031923,0.053486,0.078704,0.106104,0.134520,0.163114,0.191313,0.218750,0.245202,0.270546,0.294726,0.317731,0.339582,0.360313,0.379973,0.398615};
static const double gf4_B0[20] = {0.837747,0.716200,0.547128,0.400596,0.289459,0.209659,0.153408,0.113779,0.085632,0.065397,0.050648,0.039744,0.031571,0.025363,0.020589,0.016875,0.013953,0.011632,0.009770,0.008263};
static const double gf4_A1[20] = {0.173178,0.320247,0.559812,0.817734,1.066023,1.293310,1.496649,1.676861,1.836187,1.977213,2.102418,2.214012,2.313903,2.403709,2.484797,2.558316,2.625237,2.686378,2.742435,2.794000};
static const double gf4_A2[20] = {-0.011247,-0.038459,-0.117521,-0.250758,-0.426152,-0.627244,-0.839984,-1.054449,-1.264344,-1.466015,-1.657560,-1.838193,-2.007804,-2.166681,-2.315331,-2.454368,-2.584450,-2.706235,-2.820356,-2.927413};
static const double gf4_A3[20] = {0.000325,0.002053,0.010965,0.034176,0.075715,0.135204,0.209527,0.294694,0.386929,0.483104,0.580814,0.678297,0.774311,0.868012,0.958854,1.046508,1.130799,1.211662,1.289107,1.363199};
static const double gf4_A4[20] = {0.000004,0.000041,0.000384,0.001747,0.005045,0.010929,0.019599,0.030885,0.044405,0.059700,0.076320,0.093860,0.111980,0.130403,0.148910,0.167331,0.185538,0.203436,0.220956,0.238049};
static const double bf2_B0[20] = {0.285784,0.203973,0.130825,0.088501,0.063284,0.047322,0.036654,0.029198,0.023793,0.019754,0.016658,0.014235,0.012303,0.010739,0.009454,0.008386,0.007490,0.006729,0.006079,0.005518};
static const double bf2_B1[20] = {0.571568,0.407946,0.261650,0.177002,0.126567,0.094643,0.073308,0.058397,0.047586,0.039507,0.033317,0.028470,0.024607,0.021477,0.018908,0.016773,0.014980,0.013459,0.012158,0.011037};
static const double bf2_B2[20] = {0.285784,0.203973,0.130825,0.088501,0.063284,0.047322,0.036654,0.029198,0.023793,0.019754,0.016658,0.014235,0.012303,0.010739,0.009454,0.008386,0.007490,0.006729,0.006079,0.005518};
static const double bf2_A1[20] = {-0.131366,0.292597,0.704171,0.975372,1.158161,1.287652,1.383531,1.457120,1.515266,1.562309,1.601119,1.633667,1.661342,1.685157,1.705862,1.724025,1.740086,1.754388,1.767204,1.778753};
static const double bf2_A2[20] = {-0.011770,-0.108489,-0.227470,-0.329377,-0.411296,-0.476938,-0.530147,-0.573914,-0.610438,-0.641324,-0.667753,-0.690607,-0.710555,-0.728112,-0.743678,-0.757571,-0.770045,-0.781305,-0.791520,-0.800827};
static const double bf3_B0[20] = {0.170149,0.100733,0.050373,0.027610,0.016541,0.010629,0.007213,0.005111,0.003750,0.002831,0.002188,0.001726,0.001385,0.001128,0.000931,0.000778,0.000656,0.000558,0.000479,0.000414};
static const double bf3_B1[20] = {0.510448,0.302200,0.151118,0.082830,0.049622,0.031887,0.021640,0.015334,0.011250,0.008492,0.006565,0.005179,0.004156,0.003385,0.002794,0.002333,0.001967,0.001674,0.001437,0.001242};
static const double bf3_B2[20] = {0.510448,0.302200,0.151118,0.082830,0.049622,0.031887,0.021640,0.015334,0.011250,0.008492,0.006565,0.005179,0.004156,0.003385,0.002794,0.002333,0.001967,0.001674,0.001437,0.001242};
static const double bf3_B3[20] = {0.170149,0.100733,0.050373,0.027610,0.016541,0.010629,0.007213,0.005111,0.003750,0.002831,0.002188,0.001726,0.001385,0.001128,0.000931,0.000778,0.000656,0.000558,0.000479,0.000414};
static const double bf3_A1[20] = {-0.336246,0.398405,1.080990,1.505892,1.783327,1.976163,2.117205,2.224560,2.308883,2.376806,2.432658,2.479376,2.519020,2.553078,2.582648,2.608560,2.631451,2.651819,2.670059,2.686486};
static const double bf3_A2[20] = {-0.026816,-0.247486,-0.607116,-0.934652,-1.200263,-1.412114,-1.582459,-1.721388,-1.836396,-1.932941,-2.015013,-2.085571,-2.146834,-2.200500,-2.247883,-2.290012,-2.327708,-2.361631,-2.392315,-2.420202};
static const double bf3_A3[20] = {0.001867,0.043214,0.123145,0.207880,0.284610,0.350920,0.407548,0.455938,0.497514,0.533488,0.564848,0.592385,0.616731,0.638395,0.657784,0.675232,0.691011,0.705347,0.718425,0.730403};
