// Frozen raw GERG-2008 parameters (tools/freeze_tables.py). Not derived from the tree under test.
pub const R: f64 = 8.314472;
pub static MM: [f64; 21] = [16.04246,28.0134,44.0095,30.06904,44.09562,58.1222,58.1222,72.14878,72.14878,86.17536,100.20194,114.22852,128.2551,142.28168,2.01588,31.9988,28.0101,18.01528,34.08088,4.002602,39.948];
pub static DC: [f64; 21] = [10.139342719,11.1839,10.624978698,6.87085454,5.000043088,3.86014294,3.920016792,3.271,3.215577588,2.705877875,2.315324434,2.056404127,1.81,1.64,14.94,13.63,10.85,17.87371609,10.19,17.399,13.407429659];
pub static TC: [f64; 21] = [190.564,126.192,304.1282,305.322,369.825,407.817,425.125,460.35,469.7,507.82,540.13,569.32,594.55,617.7,33.19,154.595,132.86,647.096,373.1,5.1953,150.687];
pub static KPOL: [usize; 21] = [6,6,4,6,6,6,6,6,6,6,6,6,6,6,5,6,6,7,6,4,6];
pub static KEXP: [usize; 21] = [18,18,18,18,6,6,6,6,6,6,6,6,6,6,9,6,6,9,6,8,6];
pub static KPOLIJ: [usize; 11] = [0,2,5,2,3,2,3,4,6,6,10];
pub static KEXPIJ: [usize; 11] = [0,10,4,7,3,4,3,0,6,6,0];
pub static NOIK: [[f64; 24]; 21] = [[0.57335704239162,-1.676068752373,0.23405291834916,-0.21947376343441,0.016369201404128,0.01500440638928,0.098990489492918,0.58382770929055,-0.7478686756039,0.30033302857974,0.20985543806568,-0.018590151133061,-0.15782558339049,0.12716735220791,-0.032019743894346,-0.068049729364536,0.024291412853736,0.0051440451639444,-0.019084949733532,0.0055229677241291,-0.0044197392976085,0.040061416708429,-0.033752085907575,-0.0025127658213357],[0.59889711801201,-1.6941557480731,0.24579736191718,-0.23722456755175,0.017954918715141,0.014592875720215,0.10008065936206,0.7315711538553,-0.88372272336366,0.31887660246708,0.20766491728799,-0.019379315454158,-0.16936641554983,0.13546846041701,-0.033066712095307,-0.060690817018557,0.012797548292871,0.0058743664107299,-0.018451951971969,0.0047226622042472,-0.0052024079680599,0.043563505956635,-0.036251690750939,-0.0028974026866543],[0.52646564804653,-1.4995725042592,0.27329786733782,0.12949500022786,0.15404088341841,-0.58186950946814,-0.18022494838296,-0.095389904072812,-0.0080486819317679,-0.03554775127309,-0.28079014882405,-0.082435890081677,0.010832427979006,-0.0067073993161097,-0.0046827907600524,-0.028359911832177,0.019500174744098,-0.21609137507166,0.43772794926972,-0.22130790113593,0.015190189957331,-0.0153809489533,0.0,0.0],[0.63596780450714,-1.7377981785459,0.28914060926272,-0.33714276845694,0.022405964699561,0.015715424886913,0.11450634253745,1.0612049379745,-1.2855224439423,0.39414630777652,0.31390924682041,-0.021592277117247,-0.21723666564905,-0.28999574439489,0.4232117302573,0.04643410025926,-0.13138398329741,0.011492850364368,-0.033387688429909,0.015183171583644,-0.0047610805647657,0.046917166277885,-0.039401755804649,-0.0032569956247611],[1.0403973107358,-2.8318404081403,0.84393809606294,-0.076559591850023,0.09469737305728,0.00024796475497006,0.2774376042287,-0.043846000648377,-0.2699106478435,-0.06931341308986,-0.029632145981653,0.01404012675138,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[1.04293315891,-2.8184272548892,0.8617623239785,-0.10613619452487,0.098615749302134,0.00023948208682322,0.3033000485695,-0.041598156135099,-0.29991937470058,-0.080369342764109,-0.029761373251151,0.01305963030314,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[1.0626277411455,-2.862095182835,0.88738233403777,-0.12570581155345,0.10286308708106,0.00025358040602654,0.32325200233982,-0.037950761057432,-0.32534802014452,-0.079050969051011,-0.020636720547775,0.005705380933475,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[1.0963,-3.0402,1.0317,-0.1541,0.11535,0.00029809,0.39571,-0.045881,-0.35804,-0.10107,-0.035484,0.018156,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[1.0968643098001,-2.9988888298061,0.99516886799212,-0.16170708558539,0.11334460072775,0.00026760595150748,0.40979881986931,-0.040876423083075,-0.38169482469447,-0.10931956843993,-0.03207322332799,0.016877016216975,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[1.0553238013661,-2.6120615890629,0.7661388296726,-0.29770320622459,0.11879907733358,0.00027922861062617,0.46347589844105,0.011433196980297,-0.48256968738131,-0.093750558924659,-0.0067273247155994,-0.0051141583585428,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[1.0543747645262,-2.6500681506144,0.81730047827543,-0.30451391253428,0.122538687108,0.00027266472743928,0.4986582568167,-0.00071432815084176,-0.5423689552545,-0.13801821610756,-0.0061595287380011,0.00048602510393022,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[1.0722544875633,-2.4632951172003,0.65386674054928,-0.36324974085628,0.1271326962676,0.0003071357277793,0.5265685698754,0.019362862857653,-0.58939426849155,-0.14069963991934,-0.0078966330500036,0.0033036597968109,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[1.1151,-2.702,0.83416,-0.38828,0.1376,0.00028185,0.62037,0.015847,-0.61726,-0.15043,-0.012982,0.0044325,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[1.0461,-2.4807,0.74372,-0.52579,0.15315,0.00032865,0.84178,0.055424,-0.73555,-0.18507,-0.020775,0.012335,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[5.3579928451252,-6.2050252530595,0.13830241327086,-0.071397954896129,0.015474053959733,-0.14976806405771,-0.026368723988451,0.056681303156066,-0.060063958030436,-0.4504394202713,0.424788402445,-0.021997640827139,-0.01049952137453,-0.0028955902866816,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.88878286369701,-2.4879433312148,0.59750190775886,0.0096501817061881,0.07197042871277,0.00022337443000195,0.18558686391474,-0.03812936803576,-0.15352245383006,-0.026726814910919,-0.025675298677127,0.0095714302123668,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.90554,-2.4515,0.53149,0.024173,0.072156,0.00018818,0.19405,-0.043268,-0.12778,-0.027896,-0.034154,0.016329,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.82728408749586,-1.8602220416584,-1.1199009613744,0.15635753976056,0.87375844859025,-0.36674403715731,0.053987893432436,1.0957690214499,0.053213037828563,0.013050533930825,-0.41079520434476,0.1463744334412,-0.055726838623719,-0.0112017741438,-0.0066062758068099,0.0046918522004538,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.87641,-2.0367,0.21634,-0.050199,0.066994,0.00019076,0.20227,-0.0045348,-0.2223,-0.034714,-0.014885,0.0074154,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[-0.45579024006737,1.2516390754925,-1.5438231650621,0.020467489707221,-0.34476212380781,-0.020858459512787,0.016227414711778,-0.057471818200892,0.019462416430715,-0.03329568012302,-0.010863577372367,-0.022173365245954,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.85095714803969,-2.400322294348,0.54127841476466,0.016919770692538,0.068825965019035,0.00021428032815338,0.17429895321992,-0.033654495604194,-0.13526799857691,-0.016387350791552,-0.024987666851475,0.0088769204815709,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0]];
pub static FIJ: [[f64; 21]; 21] = [[0.0,1.0,1.0,1.0,1.0,0.771035405688,1.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,1.0,1.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.13042476515,0.260632376098,0.281570073085,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,-0.0551609771024,0.0312572600489,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,-0.0551240293009,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0]];
pub static MNUMB: [[usize; 21]; 21] = [[0,3,4,1,2,10,10,0,0,0,0,0,0,0,7,0,0,0,0,0,0],[0,0,5,6,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,10,10,10,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,10,10,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,10,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0]];
pub static TH0: [[f64; 7]; 21] = [[0.0,0.0,0.0,820.659,178.41,1062.82,1090.53],[0.0,0.0,0.0,662.738,680.562,1740.06,0.0],[0.0,0.0,0.0,919.306,865.07,483.553,341.109],[0.0,0.0,0.0,559.314,223.284,1031.38,1071.29],[0.0,0.0,0.0,479.856,200.893,955.312,1027.29],[0.0,0.0,0.0,438.27,198.018,1905.02,893.765],[0.0,0.0,0.0,468.27,183.636,1914.1,903.185],[0.0,0.0,0.0,292.503,910.237,1919.37,0.0],[0.0,0.0,0.0,178.67,840.538,1774.25,0.0],[0.0,0.0,0.0,182.326,859.207,1826.59,0.0],[0.0,0.0,0.0,169.789,836.195,1760.46,0.0],[0.0,0.0,0.0,158.922,815.064,1693.07,0.0],[0.0,0.0,0.0,156.854,814.882,1693.79,0.0],[0.0,0.0,0.0,164.947,836.264,1750.24,0.0],[0.0,0.0,0.0,228.734,326.843,1651.71,1671.69],[0.0,0.0,0.0,2235.71,1116.69,0.0,0.0],[0.0,0.0,0.0,1550.45,704.525,0.0,0.0],[0.0,0.0,0.0,268.795,1141.41,2507.37,0.0],[0.0,0.0,0.0,1833.63,847.181,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0]];
pub static N0: [[f64; 7]; 21] = [[29.83843397,-15999.69151,4.00088,0.76315,0.0046,8.74432,-4.46921],[17.56770785,-2801.729072,3.50031,0.13732,-0.1466,0.90066,0.0],[20.65844696,-4902.171516,3.50002,2.04452,-1.06044,2.03366,0.01393],[36.73005938,-23639.65301,4.00263,4.33939,1.23722,13.1974,-6.01989],[44.70909619,-31236.63551,4.02939,6.60569,3.197,19.1921,-8.37267],[34.30180349,-38525.50276,4.06714,8.97575,5.25156,25.1423,16.1388],[36.53237783,-38957.80933,4.33944,9.44893,6.89406,24.4618,14.7824],[43.17218626,-51198.30946,4.0,11.7618,20.1101,33.1688,0.0],[42.67837089,-45215.83,4.0,8.95043,21.836,33.4032,0.0],[46.99717188,-52746.83318,4.0,11.6977,26.8142,38.6164,0.0],[52.07631631,-57104.81056,4.0,13.7266,30.4707,43.5561,0.0],[57.25830934,-60546.76385,4.0,15.6865,33.8029,48.1731,0.0],[62.09646901,-66600.12837,4.0,18.0241,38.1235,53.3415,0.0],[65.93909154,-74131.45483,4.0,21.0069,43.4931,58.3657,0.0],[13.07520288,-5836.943696,2.47906,0.95806,0.45444,1.56039,-1.3756],[16.8017173,-2318.32269,3.50146,1.07558,1.01334,0.0,0.0],[17.45786899,-2635.244116,3.50055,1.02865,0.00493,0.0,0.0],[21.57882705,-7766.733078,4.00392,0.01059,0.98763,3.06904,0.0],[21.5830944,-6069.035869,4.0,3.11942,1.00243,0.0,0.0],[10.04639507,-745.375,2.5,0.0,0.0,0.0,0.0],[10.04639507,-745.375,2.5,0.0,0.0,0.0,0.0]];
pub static COIK: [[i32; 24]; 21] = [[0,0,0,0,0,0,1,1,1,1,1,1,2,2,2,2,2,3,3,3,6,6,6,6],[0,0,0,0,0,0,1,1,1,1,1,1,2,2,2,2,2,3,3,3,6,6,6,6],[0,0,0,0,1,1,1,1,1,1,2,2,3,3,3,3,3,5,5,5,6,6,0,0],[0,0,0,0,0,0,1,1,1,1,1,1,2,2,2,2,2,3,3,3,6,6,6,6],[0,0,0,0,0,0,1,1,2,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,1,1,2,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,1,1,2,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,1,1,2,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,1,1,2,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,1,1,2,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,1,1,2,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,1,1,2,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,1,1,2,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,1,1,2,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,1,1,1,1,2,2,3,3,5,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,1,1,2,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,1,1,2,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,1,1,1,2,2,2,3,5,5,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,1,1,2,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,1,1,1,1,1,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,1,1,2,2,3,3,0,0,0,0,0,0,0,0,0,0,0,0]];
pub static DOIK: [[i32; 24]; 21] = [[1,1,2,2,4,4,1,1,1,2,3,6,2,3,3,4,4,2,3,4,5,6,6,7],[1,1,2,2,4,4,1,1,1,2,3,6,2,3,3,4,4,2,3,4,5,6,6,7],[1,1,2,3,3,3,4,5,6,6,1,4,1,1,3,3,4,5,5,5,5,5,0,0],[1,1,2,2,4,4,1,1,1,2,3,6,2,3,3,4,4,2,3,4,5,6,6,7],[1,1,1,2,3,7,2,5,1,4,3,4,0,0,0,0,0,0,0,0,0,0,0,0],[1,1,1,2,3,7,2,5,1,4,3,4,0,0,0,0,0,0,0,0,0,0,0,0],[1,1,1,2,3,7,2,5,1,4,3,4,0,0,0,0,0,0,0,0,0,0,0,0],[1,1,1,2,3,7,2,5,1,4,3,4,0,0,0,0,0,0,0,0,0,0,0,0],[1,1,1,2,3,7,2,5,1,4,3,4,0,0,0,0,0,0,0,0,0,0,0,0],[1,1,1,2,3,7,2,5,1,4,3,4,0,0,0,0,0,0,0,0,0,0,0,0],[1,1,1,2,3,7,2,5,1,4,3,4,0,0,0,0,0,0,0,0,0,0,0,0],[1,1,1,2,3,7,2,5,1,4,3,4,0,0,0,0,0,0,0,0,0,0,0,0],[1,1,1,2,3,7,2,5,1,4,3,4,0,0,0,0,0,0,0,0,0,0,0,0],[1,1,1,2,3,7,2,5,1,4,3,4,0,0,0,0,0,0,0,0,0,0,0,0],[1,1,2,2,4,1,5,5,5,1,1,2,5,1,0,0,0,0,0,0,0,0,0,0],[1,1,1,2,3,7,2,5,1,4,3,4,0,0,0,0,0,0,0,0,0,0,0,0],[1,1,1,2,3,7,2,5,1,4,3,4,0,0,0,0,0,0,0,0,0,0,0,0],[1,1,1,2,2,3,4,1,5,5,1,2,4,4,1,1,0,0,0,0,0,0,0,0],[1,1,1,2,3,7,2,5,1,4,3,4,0,0,0,0,0,0,0,0,0,0,0,0],[1,1,1,4,1,3,5,5,5,2,1,2,0,0,0,0,0,0,0,0,0,0,0,0],[1,1,1,2,3,7,2,5,1,4,3,4,0,0,0,0,0,0,0,0,0,0,0,0]];
pub static TOIK: [[f64; 24]; 21] = [[0.125,1.125,0.375,1.125,0.625,1.5,0.625,2.625,2.75,2.125,2.0,1.75,4.5,4.75,5.0,4.0,4.5,7.5,14.0,11.5,26.0,28.0,30.0,16.0],[0.125,1.125,0.375,1.125,0.625,1.5,0.625,2.625,2.75,2.125,2.0,1.75,4.5,4.75,5.0,4.0,4.5,7.5,14.0,11.5,26.0,28.0,30.0,16.0],[0.0,1.25,1.625,0.375,0.375,1.375,1.125,1.375,0.125,1.625,3.75,3.5,7.5,8.0,6.0,16.0,11.0,24.0,26.0,28.0,24.0,26.0,0.0,0.0],[0.125,1.125,0.375,1.125,0.625,1.5,0.625,2.625,2.75,2.125,2.0,1.75,4.5,4.75,5.0,4.0,4.5,7.5,14.0,11.5,26.0,28.0,30.0,16.0],[0.25,1.125,1.5,1.375,0.25,0.875,0.625,1.75,3.625,3.625,14.5,12.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.25,1.125,1.5,1.375,0.25,0.875,0.625,1.75,3.625,3.625,14.5,12.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.25,1.125,1.5,1.375,0.25,0.875,0.625,1.75,3.625,3.625,14.5,12.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.25,1.125,1.5,1.375,0.25,0.875,0.625,1.75,3.625,3.625,14.5,12.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.25,1.125,1.5,1.375,0.25,0.875,0.625,1.75,3.625,3.625,14.5,12.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.25,1.125,1.5,1.375,0.25,0.875,0.625,1.75,3.625,3.625,14.5,12.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.25,1.125,1.5,1.375,0.25,0.875,0.625,1.75,3.625,3.625,14.5,12.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.25,1.125,1.5,1.375,0.25,0.875,0.625,1.75,3.625,3.625,14.5,12.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.25,1.125,1.5,1.375,0.25,0.875,0.625,1.75,3.625,3.625,14.5,12.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.25,1.125,1.5,1.375,0.25,0.875,0.625,1.75,3.625,3.625,14.5,12.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.5,0.625,0.375,0.625,1.125,2.625,0.0,0.25,1.375,4.0,4.25,5.0,8.0,8.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.25,1.125,1.5,1.375,0.25,0.875,0.625,1.75,3.625,3.625,14.5,12.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.25,1.125,1.5,1.375,0.25,0.875,0.625,1.75,3.625,3.625,14.5,12.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.5,1.25,1.875,0.125,1.5,1.0,0.75,1.5,0.625,2.625,5.0,4.0,4.5,3.0,4.0,6.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.25,1.125,1.5,1.375,0.25,0.875,0.625,1.75,3.625,3.625,14.5,12.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.125,0.75,1.0,0.75,2.625,0.125,1.25,2.0,1.0,4.5,5.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.25,1.125,1.5,1.375,0.25,0.875,0.625,1.75,3.625,3.625,14.5,12.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0]];
pub static DIJK: [[i32; 12]; 11] = [[0,0,0,0,0,0,0,0,0,0,0,0],[3,4,1,2,2,2,2,2,2,3,3,3],[3,3,4,4,4,1,1,1,2,0,0,0],[1,4,1,2,2,2,2,2,3,0,0,0],[1,2,3,1,2,3,0,0,0,0,0,0],[2,3,1,1,1,2,0,0,0,0,0,0],[2,2,3,1,2,2,0,0,0,0,0,0],[1,3,3,4,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0],[1,1,1,2,2,3,3,4,4,4,0,0]];
pub static TIJK: [[f64; 12]; 11] = [[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.65,1.55,3.1,5.9,7.05,3.35,1.2,5.8,2.7,0.45,0.55,1.95],[1.85,3.95,0.0,1.85,3.85,5.25,3.85,0.2,6.5,0.0,0.0,0.0],[0.0,1.85,7.85,5.4,0.0,0.75,2.8,4.45,4.25,0.0,0.0,0.0],[2.6,1.95,0.0,3.95,7.95,8.0,0.0,0.0,0.0,0.0,0.0,0.0],[1.85,1.4,3.2,2.5,8.0,3.75,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.05,0.0,3.65,4.9,4.45,0.0,0.0,0.0,0.0,0.0,0.0],[2.0,-1.0,1.75,1.4,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[1.0,1.55,1.7,0.25,1.35,0.0,1.25,0.0,0.7,5.4,0.0,0.0]];
pub static CIJK: [[f64; 12]; 11] = [[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,1.0,1.0,1.0,0.875,0.75,0.5,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.25,0.25,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,1.0,1.0,0.25,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,1.0,0.5,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.25,0.25,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,1.0,1.0,0.875,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0]];
pub static EIJK: [[f64; 12]; 11] = [[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.5,0.5,0.5,0.5,0.5,0.5,0.5,0.5,0.5,0.5],[0.0,0.0,0.0,0.0,0.0,0.5,0.5,0.5,0.5,0.0,0.0,0.0],[0.0,0.0,0.5,0.5,0.5,0.5,0.5,0.5,0.5,0.0,0.0,0.0],[0.0,0.0,0.0,0.5,0.5,0.5,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.5,0.5,0.5,0.5,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.5,0.5,0.5,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0]];
pub static BIJK: [[f64; 12]; 11] = [[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,1.0,1.0,1.0,1.25,1.5,2.0,3.0,3.0,3.0,3.0],[0.0,0.0,0.0,0.0,0.0,0.75,1.0,2.0,3.0,0.0,0.0,0.0],[0.0,0.0,1.0,1.0,2.5,3.0,3.0,3.0,3.0,0.0,0.0,0.0],[0.0,0.0,0.0,1.0,2.0,3.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.75,1.0,2.0,3.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,1.0,1.0,1.25,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0]];
pub static GIJK: [[f64; 12]; 11] = [[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.5,0.5,0.5,0.5,0.5,0.5,0.5,0.5,0.5,0.5],[0.0,0.0,0.0,0.0,0.0,0.5,0.5,0.5,0.5,0.0,0.0,0.0],[0.0,0.0,0.5,0.5,0.5,0.5,0.5,0.5,0.5,0.0,0.0,0.0],[0.0,0.0,0.0,0.5,0.5,0.5,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.5,0.5,0.5,0.5,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.5,0.5,0.5,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0]];
pub static NIJK: [[f64; 12]; 11] = [[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[-0.00080926050298746,-0.00075381925080059,-0.041618768891219,-0.23452173681569,0.14003840584586,0.063281744807738,-0.034660425848809,-0.23918747334251,0.0019855255066891,6.1777746171555,-6.9575358271105,1.0630185306388],[0.013746429958576,-0.0074425012129552,-0.0045516600213685,-0.0054546603350237,0.0023682016824471,0.18007763721438,-0.44773942932486,0.0193273748882,-0.30632197804624,0.0,0.0,0.0],[-0.0098038985517335,0.00042487270143005,-0.034800214576142,-0.13333813013896,-0.011993694974627,0.069243379775168,-0.31022508148249,0.24495491753226,0.22369816716981,0.0,0.0,0.0],[-0.10859387354942,0.080228576727389,-0.0093303985115717,0.040989274005848,-0.24338019772494,0.23855347281124,0.0,0.0,0.0,0.0,0.0,0.0],[0.28661625028399,-0.10919833861247,-1.137403208227,0.76580544237358,0.0042638000926819,0.17673538204534,0.0,0.0,0.0,0.0,0.0,0.0],[-0.47376518126608,0.48961193461001,-0.0057011062090535,-0.1996682004132,-0.69411103101723,0.69226192739021,0.0,0.0,0.0,0.0,0.0,0.0],[-0.25157134971934,-0.0062203841111983,0.088850315184396,-0.035592212573239,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],[2.5574776844118,-7.9846357136353,4.7859131465806,-0.73265392369587,1.3805471345312,0.28349603476365,-0.49087385940425,-0.10291888921447,0.11836314681968,5.5527385721943e-05,0.0,0.0]];
pub static BVIJ: [[f64; 21]; 21] = [[0.0,0.998721377,0.999518072,0.997547866,1.00482707,1.011240388,0.979105972,1.0,0.94833012,0.958015294,0.962050831,0.994740603,1.002852287,1.033086292,1.0,1.0,0.997340772,1.012783169,1.012599087,1.0,1.034630259],[0.0,0.0,0.977794634,0.978880168,0.974424681,0.98641583,0.99608261,1.0,1.0,1.0,1.0,1.0,1.0,1.0,0.972532065,0.99952177,1.0,1.0,0.910394249,0.969501055,1.004166412],[0.0,0.0,0.0,1.002525718,0.996898004,1.076551882,1.174760923,1.060793104,1.024311498,1.0,1.205469976,1.026169373,1.0,1.000151132,0.904142159,1.0,1.0,0.949055959,0.906630564,0.846647561,1.008392428],[0.0,0.0,0.0,0.0,0.997607277,1.0,0.999157205,1.0,0.993851009,1.0,1.0,1.007469726,1.0,0.995676258,0.925367171,1.0,1.0,1.0,1.010817909,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.999243146,0.999795868,1.040459289,1.044919431,1.0,1.0,1.0,1.0,0.984104227,1.0,1.0,1.0,1.0,0.936811219,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.999120311,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.012994431,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.0,1.0,0.976951968,1.0,1.0,1.0,1.0,0.908113163,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,0.984613203,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.001516371,1.0,1.0,1.0,1.0,0.754473958,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,0.828967164,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.695358382,1.0,1.0,1.0,0.975187766,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,0.999746847],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,0.795660392,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0]];
pub static GVIJ: [[f64; 21]; 21] = [[0.0,1.013950311,1.002806594,1.006617867,1.038470657,1.054319053,1.045375122,1.343685343,1.124508039,1.052643846,1.156655935,1.116549372,1.141895355,1.146089637,1.018702573,1.0,1.006102927,1.585018334,1.040161207,0.881405683,1.014678542],[0.0,0.0,1.047578256,1.042352891,1.081025408,1.100576129,1.146949309,1.154135439,1.078877166,1.195952177,1.40455409,1.186067025,1.100405929,1.0,0.970115357,0.997082328,1.008690943,1.094749685,1.256844157,0.932629867,1.002212182],[0.0,0.0,0.0,1.032876701,1.047596298,1.081909003,1.222437324,1.116793198,1.068406078,0.851343711,1.164585914,1.104043935,0.973386152,1.183394668,1.15279255,1.0,1.0,1.542328793,1.024085837,0.864141549,1.029205465],[0.0,0.0,0.0,0.0,1.00303472,1.006616886,1.006179146,1.045439935,1.026085655,1.169701102,1.057666085,1.071917985,1.14353473,1.098361281,1.10607204,1.0,1.201417898,1.0,1.030988277,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,1.001156119,1.003264179,0.999432118,1.019921513,1.057872566,1.079648053,1.102764612,1.199769134,1.053040574,1.07400611,1.0,1.108143673,1.011759763,1.010593999,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,1.00041444,1.002284353,1.002779804,1.010493989,1.021668316,1.032807063,1.047298475,1.060243344,1.147595688,1.0,1.087272232,1.0,0.988591117,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.002728434,1.01815965,1.034995284,1.019174227,1.046905515,1.049219137,1.027845529,1.232939523,1.0,1.084740904,1.223638763,1.033366041,1.0,1.214638734],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.000024335,1.002995876,1.009928206,1.017880545,1.028994325,1.039372957,1.184340443,1.0,1.116694577,1.0,0.835763343,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.002480637,1.008972412,1.069223964,1.034910633,1.016370338,1.188334783,1.0,1.119954454,0.95667731,1.076539234,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.001508227,1.006268954,1.02076168,1.013511439,1.243461678,1.0,1.155145836,1.170217596,1.339283552,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.006767176,1.001370076,1.002972346,1.159131722,1.0,1.190354273,1.0,1.087956749,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.001357085,1.002553544,1.305249405,1.0,1.219206702,0.599484191,1.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.00081052,1.342647661,1.0,1.252151449,1.0,1.082905109,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.120233729,1.0,0.87018496,0.551405318,1.171714677,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.121416201,1.0,1.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.143174289,1.0,1.0,0.993907223],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.101731308,1.0,1.159720623],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.014832832,1.0,1.038993495],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0]];
pub static BTIJ: [[f64; 21]; 21] = [[0.0,0.99809883,1.02262449,0.996336508,0.989680305,0.980315756,0.99417491,1.0,0.992127525,0.981844797,0.977431529,0.957473785,0.947716769,0.937777823,1.0,1.0,0.987411732,1.063333913,1.011090031,1.0,0.990954281],[0.0,0.0,1.005894529,1.007671428,1.002677329,0.99286813,0.994515234,1.0,1.0,1.0,1.0,1.0,0.95637945,0.957934447,0.946134337,0.997190589,1.0,1.0,1.004692366,0.692868765,0.999069843],[0.0,0.0,0.0,1.013871147,1.033620538,1.023339824,1.018171004,1.019180957,1.027000795,1.0,1.011806317,1.02969078,1.00768862,1.02002879,0.942320195,1.0,1.0,0.997372205,1.016034583,0.76837763,0.996512863],[0.0,0.0,0.0,0.0,0.996199694,1.0,0.999130554,1.0,0.998688946,1.0,1.0,0.984068272,1.0,0.970918061,0.932969831,1.0,1.0,1.0,0.990197354,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.998012298,1.000310289,0.994364425,0.996484021,1.0,1.0,1.0,1.0,0.985331233,1.0,1.0,1.0,1.0,0.992573556,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.999922459,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,0.974550548,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.0,1.0,0.993688386,1.0,1.0,1.0,1.0,0.985962886,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,0.962006651,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,0.99764101,1.0,1.0,1.0,1.0,0.985891113,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,0.988937417,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.064818089,1.0,1.049594632,0.897162268,0.973091413,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0,1.0,1.000023103],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.025536736,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0]];
pub static GTIJ: [[f64; 21]; 21] = [[0.0,0.979273013,0.975665369,1.049707697,1.098655531,1.161117729,1.171607691,1.188899743,1.249173968,1.330570181,1.379850328,1.449245409,1.528532478,1.568231489,1.352643115,0.95,0.987473033,0.775810513,0.961155729,3.159776855,0.989843388],[0.0,0.0,1.107654104,1.098650964,1.201264026,1.284462634,1.304886838,1.38177077,1.419029041,1.472607971,1.520975334,1.733280051,1.749119996,1.822157123,1.175696583,0.995157044,0.993425388,0.968808467,0.9601742,1.47183158,0.990034831],[0.0,0.0,0.0,0.90094953,0.908772477,0.929982936,0.911498231,0.961218039,0.979217302,1.038675574,1.046169823,1.074455386,1.140671202,1.145512213,1.782924792,1.0,1.0,0.775453996,0.92601888,3.207456948,1.050971635],[0.0,0.0,0.0,0.0,1.01473019,1.033283811,1.034832749,1.021150247,1.066665676,1.092177796,1.134532014,1.168636194,1.05603303,1.237191558,1.902008495,1.0,1.069224728,1.0,0.90273666,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,1.005250774,1.007392782,1.0032695,1.008344412,1.025657518,1.050044169,1.063694129,1.109973833,1.140905252,2.308215191,1.0,1.197564208,0.600340961,0.905829247,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,1.001432824,1.001835788,1.002495889,1.006018054,1.00988576,1.013945424,1.017817492,1.021624748,1.895305393,1.0,1.161390082,1.0,0.937130844,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.000792201,1.00214364,1.00915706,1.021283378,1.033180106,1.014096448,1.076466918,2.509259945,1.0,1.173916162,0.615512682,0.926156602,1.0,1.245039498],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.000050537,1.001204174,1.003194615,1.00564748,1.008191499,1.010825138,1.996386669,1.0,1.199326059,1.0,0.982651529,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.000761237,1.002441051,1.016422347,1.103421755,1.049035838,2.013859174,1.0,1.206043295,0.447666011,0.959065662,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.999762786,1.001633952,1.055369591,1.028939539,3.021197546,1.0,1.233272781,0.569681333,0.956075596,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.998793111,1.001150096,1.002229938,3.169143057,1.0,1.256123503,1.0,1.013453092,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.000235044,1.007186267,2.191555216,1.0,1.276565536,0.662072469,1.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.000182392,2.23435404,1.0,1.294070556,1.0,1.086557826,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,3.786003724,1.0,1.803567587,0.740416402,1.103693489,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.377504607,1.0,1.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,0.964767932,1.0,1.0,0.990430423],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.022749748,1.0,0.954215746],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.940587083,1.0,1.070941866],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0],[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0]];
