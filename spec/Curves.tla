------------------------------- MODULE Curves -------------------------------
(* Values of the curves at exactly representable points, from 40-digit arithmetic (CurvesModel checks the functional equations
   they obey).  A positive number is <<m, e>> = m / 10^8 * 10^e with m of nine digits; micro is 10^-6. *)
EXTENDS Integers
KMAX == 280
\* exp(k / 4), k = -KMAX..KMAX
ExpTab == <<
  <<397544974, -31>>, <<510457850, -31>>, <<655440854, -31>>, <<841602716, -31>>, <<108063928, -30>>, <<138756830, -30>>, <<178167296, -30>>, <<228771337, -30>>, <<293748211, -30>>, <<377180169, -30>>,
  <<484308924, -30>>, <<621864968, -30>>, <<798490425, -30>>, <<102528200, -29>>, <<131648815, -29>>, <<169040424, -29>>, <<217052201, -29>>, <<278700543, -29>>, <<357858581, -29>>, <<459499513, -29>>,
  <<590009054, -29>>, <<757586622, -29>>, <<972760477, -29>>, <<124904918, -28>>, <<160381089, -28>>, <<205933395, -28>>, <<264423713, -28>>, <<339526768, -28>>, <<435961000, -28>>, <<559785005, -28>>,
  <<718778174, -28>>, <<922929444, -28>>, <<118506486, -27>>, <<152165341, -27>>, <<195384165, -27>>, <<250878234, -27>>, <<322134029, -27>>, <<413628280, -27>>, <<531109225, -27>>, <<681957744, -27>>,
  <<875651076, -27>>, <<112435824, -26>>, <<144370456, -26>>, <<185375334, -26>>, <<238026641, -26>>, <<305632257, -26>>, <<392439586, -26>>, <<503902403, -26>>, <<647023493, -26>>, <<830794610, -26>>,
  <<106676139, -25>>, <<136974874, -25>>, <<175879220, -25>>, <<225833389, -25>>, <<289975811, -25>>, <<372336312, -25>>, <<478089288, -25>>, <<613878798, -25>>, <<788235979, -25>>, <<101211503, -24>>,
  <<129958143, -24>>, <<166869558, -24>>, <<214264754, -24>>, <<275121390, -24>>, <<353262857, -24>>, <<453598487, -24>>, <<582431987, -24>>, <<747857475, -24>>, <<960268005, -24>>, <<123300853, -23>>,
  <<158321429, -23>>, <<203288738, -23>>, <<261027907, -23>>, <<335166467, -23>>, <<430362262, -23>>, <<552596083, -23>>, <<709547416, -23>>, <<911076917, -23>>, <<116984592, -22>>, <<150211189, -22>>,
  <<192874985, -22>>, <<247656383, -22>>, <<317997090, -22>>, <<408316346, -22>>, <<524288566, -22>>, <<673199845, -22>>, <<864405711, -22>>, <<110991890, -21>>, <<142516408, -21>>, <<182994691, -21>>,
  <<234969834, -21>>, <<301707239, -21>>, <<387399763, -21>>, <<497431142, -21>>, <<638714229, -21>>, <<820125304, -21>>, <<105306174, -20>>, <<135215803, -20>>, <<173620528, -20>>, <<222933171, -20>>,
  <<286251858, -20>>, <<367554661, -20>>, <<471949527, -20>>, <<605995188, -20>>, <<778113224, -20>>, <<999117157, -20>>, <<128289182, -19>>, <<164726571, -19>>, <<211513104, -19>>, <<271588201, -19>>,
  <<348726153, -19>>, <<447773244, -19>>, <<574952226, -19>>, <<738253272, -19>>, <<947935965, -19>>, <<121717387, -18>>, <<156288219, -18>>, <<200678045, -18>>, <<257675711, -18>>, <<330862162, -18>>,
  <<424835426, -18>>, <<545499484, -18>>, <<700435203, -18>>, <<899376603, -18>>, <<115482242, -17>>, <<148282134, -17>>, <<190398028, -17>>, <<244475908, -17>>, <<313913279, -17>>, <<403072629, -17>>,
  <<517555501, -17>>, <<664554417, -17>>, <<853304763, -17>>, <<109566500, -16>>, <<140686171, -16>>, <<180644620, -16>>, <<231952283, -16>>, <<297832627, -16>>, <<382424663, -16>>, <<491042987, -16>>,
  <<630511676, -16>>, <<809593018, -16>>, <<103953801, -15>>, <<133479323, -15>>, <<171390843, -15>>, <<220070199, -15>>, <<282575729, -15>>, <<362834418, -15>>, <<465888615, -15>>, <<598212822, -15>>,
  <<768120469, -15>>, <<986286205, -15>>, <<126641655, -14>>, <<162611104, -14>>, <<208796791, -14>>, <<268100387, -14>>, <<344247711, -14>>, <<442022810, -14>>, <<567568523, -14>>, <<728772410, -14>>,
  <<935762297, -14>>, <<120154257, -13>>, <<154281120, -13>>, <<198100880, -13>>, <<254366565, -13>>, <<326613134, -13>>, <<419379566, -13>>, <<538494022, -13>>, <<691440011, -13>>, <<887826548, -13>>,
  <<113999185, -12>>, <<146377851, -12>>, <<187952882, -12>>, <<241336277, -12>>, <<309881914, -12>>, <<397896254, -12>>, <<510908903, -12>>, <<656020017, -12>>, <<842346375, -12>>, <<108159416, -11>>,
  <<138879439, -11>>, <<178324729, -11>>, <<228973485, -11>>, <<294007774, -11>>, <<377513454, -11>>, <<484736871, -11>>, <<622414462, -11>>, <<799195989, -11>>, <<102618796, -10>>, <<131765143, -10>>,
  <<169189792, -10>>, <<217243994, -10>>, <<278946809, -10>>, <<358174793, -10>>, <<459905538, -10>>, <<590530400, -10>>, <<758256043, -10>>, <<973620031, -10>>, <<125015287, -9>>, <<160522806, -9>>,
  <<206115362, -9>>, <<264657364, -9>>, <<339826782, -9>>, <<436346225, -9>>, <<560279644, -9>>, <<719413303, -9>>, <<923744966, -9>>, <<118611202, -8>>, <<152299797, -8>>, <<195556811, -8>>,
  <<251099916, -8>>, <<322418674, -8>>, <<413993772, -8>>, <<531578525, -8>>, <<682560338, -8>>, <<876424822, -8>>, <<112535175, -7>>, <<144498025, -7>>, <<185539136, -7>>, <<238236967, -7>>,
  <<305902321, -7>>, <<392786355, -7>>, <<504347663, -7>>, <<647595218, -7>>, <<831528719, -7>>, <<106770401, -6>>, <<137095909, -6>>, <<176034631, -6>>, <<226032941, -6>>, <<290232041, -6>>,
  <<372665317, -6>>, <<478511739, -6>>, <<614421235, -6>>, <<788932483, -6>>, <<101300936, -5>>, <<130072977, -5>>, <<167017008, -5>>, <<214454083, -5>>, <<275364493, -5>>, <<353575009, -5>>,
  <<453999298, -5>>, <<582946637, -5>>, <<748518299, -5>>, <<961116521, -5>>, <<123409804, -4>>, <<158461325, -4>>, <<203468369, -4>>, <<261258557, -4>>, <<335462628, -4>>, <<430742541, -4>>,
  <<553084370, -4>>, <<710174389, -4>>, <<911881966, -4>>, <<117087962, -3>>, <<150343919, -3>>, <<193045414, -3>>, <<247875218, -3>>, <<318278080, -3>>, <<408677144, -3>>, <<524751840, -3>>,
  <<673794700, -3>>, <<865169520, -3>>, <<111089965, -2>>, <<142642339, -2>>, <<183156389, -2>>, <<235177459, -2>>, <<301973834, -2>>, <<387742078, -2>>, <<497870684, -2>>, <<639278612, -2>>,
  <<820849986, -2>>, <<105399225, -1>>, <<135335283, -1>>, <<173773943, -1>>, <<223130160, -1>>, <<286504797, -1>>, <<367879441, -1>>, <<472366553, -1>>, <<606530660, -1>>, <<778800783, -1>>,
  <<100000000, 0>>, <<128402542, 0>>, <<164872127, 0>>, <<211700002, 0>>, <<271828183, 0>>, <<349034296, 0>>, <<448168907, 0>>, <<575460268, 0>>, <<738905610, 0>>, <<948773584, 0>>,
  <<121824940, 1>>, <<156426319, 1>>, <<200855369, 1>>, <<257903399, 1>>, <<331154520, 1>>, <<425210820, 1>>, <<545981500, 1>>, <<701054123, 1>>, <<900171313, 1>>, <<115584285, 2>>,
  <<148413159, 2>>, <<190566268, 2>>, <<244691932, 2>>, <<314190660, 2>>, <<403428793, 2>>, <<518012825, 2>>, <<665141633, 2>>, <<854058763, 2>>, <<109663316, 3>>, <<140810485, 3>>,
  <<180804241, 3>>, <<232157241, 3>>, <<298095799, 3>>, <<382762582, 3>>, <<491476884, 3>>, <<631068811, 3>>, <<810308393, 3>>, <<104045657, 4>>, <<133597268, 4>>, <<171542288, 4>>,
  <<220264658, 4>>, <<282825419, 4>>, <<363155027, 4>>, <<466300285, 4>>, <<598741417, 4>>, <<768799198, 4>>, <<987157710, 4>>, <<126753559, 5>>, <<162754791, 5>>, <<208981289, 5>>,
  <<268337287, 5>>, <<344551896, 5>>, <<442413392, 5>>, <<568070040, 5>>, <<729416370, 5>>, <<936589158, 5>>, <<120260428, 6>>, <<154417447, 6>>, <<198275926, 6>>, <<254591329, 6>>,
  <<326901737, 6>>, <<419750139, 6>>, <<538969848, 6>>, <<692050983, 6>>, <<888611052, 6>>, <<114099918, 7>>, <<146507194, 7>>, <<188118961, 7>>, <<241549528, 7>>, <<310155733, 7>>,
  <<398247844, 7>>, <<511360354, 7>>, <<656599691, 7>>, <<843090692, 7>>, <<108254988, 8>>, <<139002156, 8>>, <<178482301, 8>>, <<229175811, 8>>, <<294267566, 8>>, <<377847034, 8>>,
  <<485165195, 8>>, <<622964442, 8>>, <<799902177, 8>>, <<102709473, 9>>, <<131881573, 9>>, <<169339292, 9>>, <<217435955, 9>>, <<279193293, 9>>, <<358491285, 9>>, <<460311921, 9>>,
  <<591052206, 9>>, <<758926055, 9>>, <<974480345, 9>>, <<125125753, 10>>, <<160664647, 10>>, <<206297491, 10>>, <<264891221, 10>>, <<340127061, 10>>, <<436731791, 10>>, <<560774720, 10>>,
  <<720048993, 10>>, <<924561209, 10>>, <<118716009, 11>>, <<152434373, 11>>, <<195729609, 11>>, <<251321793, 11>>, <<322703570, 11>>, <<414359586, 11>>, <<532048241, 11>>, <<683163464, 11>>,
  <<877199251, 11>>, <<112634613, 12>>, <<144625706, 12>>, <<185703083, 12>>, <<238447478, 12>>, <<306172623, 12>>, <<393133430, 12>>, <<504793316, 12>>, <<648167448, 12>>, <<832263477, 12>>,
  <<106864746, 13>>, <<137217050, 13>>, <<176190180, 13>>, <<226232669, 13>>, <<290488497, 13>>, <<372994613, 13>>, <<478934563, 13>>, <<614964152, 13>>, <<789629602, 13>>, <<101390448, 14>>,
  <<130187912, 14>>, <<167164588, 14>>, <<214643580, 14>>, <<275607812, 14>>, <<353887436, 14>>, <<454400462, 14>>, <<583461743, 14>>, <<749179707, 14>>, <<961965786, 14>>, <<123518852, 15>>,
  <<158601345, 15>>, <<203648158, 15>>, <<261489411, 15>>, <<335759050, 15>>, <<431123155, 15>>, <<553573088, 15>>, <<710801915, 15>>, <<912687726, 15>>, <<117191424, 16>>, <<150476767, 16>>,
  <<193215993, 16>>, <<248094246, 16>>, <<318559318, 16>>, <<409038260, 16>>, <<525215523, 16>>, <<674390081, 16>>, <<865934004, 16>>, <<111188127, 17>>, <<142768381, 17>>, <<183318230, 17>>,
  <<235385267, 17>>, <<302240665, 17>>, <<388084696, 17>>, <<498310614, 17>>, <<639843494, 17>>, <<821575308, 17>>, <<105492358, 18>>, <<135454869, 18>>, <<173927494, 18>>, <<223327323, 18>>,
  <<286757959, 18>>, <<368204508, 18>>, <<472783947, 18>>, <<607066604, 18>>, <<779488950, 18>>, <<100088362, 19>>, <<128516001, 19>>, <<165017812, 19>>, <<211887065, 19>>, <<272068377, 19>>,
  <<349342711, 19>>, <<448564920, 19>>, <<575968758, 19>>, <<739558524, 19>>, <<949611942, 19>>, <<121932587, 20>>, <<156564541, 20>>, <<201032850, 20>>, <<258131289, 20>>, <<331447135, 20>>,
  <<425586546, 20>>, <<546463942, 20>>, <<701673591, 20>>, <<900966725, 20>>, <<115686417, 21>>, <<148544300, 21>>, <<190734657, 21>>, <<244908148, 21>>, <<314468286, 21>>, <<403785273, 21>>,
  <<518470553, 21>>, <<665729368, 21>>, <<854813429, 21>>, <<109760217, 22>>, <<140934908, 22>>, <<180964004, 22>>, <<232362381, 22>>, <<298359203, 22>>, <<383100800, 22>>, <<491911164, 22>>,
  <<631626438, 22>>, <<811024400, 22>>, <<104137594, 23>>, <<133715318, 23>>, <<171693867, 23>>, <<220459289, 23>>, <<283075330, 23>>, <<363475919, 23>>, <<466712318, 23>>, <<599270479, 23>>,
  <<769478527, 23>>, <<988029986, 23>>, <<126865561, 24>>, <<162898605, 24>>, <<209165950, 24>>, <<268574396, 24>>, <<344856350, 24>>, <<442804319, 24>>, <<568572000, 24>>, <<730060899, 24>>,
  <<937416750, 24>>, <<120366693, 25>>, <<154553894, 25>>, <<198451128, 25>>, <<254816292, 25>>, <<327190595, 25>>, <<420121040, 25>>, <<539446094, 25>>, <<692662496, 25>>, <<889396249, 25>>,
  <<114200739, 26>>, <<146636651, 26>>, <<188285187, 26>>, <<241762966, 26>>, <<310429794, 26>>, <<398599745, 26>>, <<511812204, 26>>, <<657179878, 26>>, <<843835667, 26>>, <<108350644, 27>>,
  <<139124981, 27>>, <<178640012, 27>>, <<229378316, 27>>, <<294527588, 27>>, <<378180909, 27>>, <<485593899, 27>>, <<623514908, 27>>, <<800608990, 27>>, <<102800229, 28>>, <<131998107, 28>>,
  <<169488924, 28>>, <<217628087, 28>>, <<279439995, 28>>, <<358808056, 28>>, <<460718663, 28>>, <<591574474, 28>>, <<759596660, 28>>, <<975341418, 28>>, <<125236317, 29>>, <<160806614, 29>>,
  <<206479780, 29>>, <<265125285, 29>>, <<340427605, 29>>, <<437117697, 29>>, <<561270233, 29>>, <<720685245, 29>>, <<925378173, 29>>, <<118820909, 30>>, <<152569068, 30>>, <<195902561, 30>>,
  <<251543867, 30>> >>
\* 1 / (1 + exp(-k / 4))
SigTab == <<
  <<397544974, -31>>, <<510457850, -31>>, <<655440854, -31>>, <<841602716, -31>>, <<108063928, -30>>, <<138756830, -30>>, <<178167296, -30>>, <<228771337, -30>>, <<293748211, -30>>, <<377180169, -30>>,
  <<484308924, -30>>, <<621864968, -30>>, <<798490425, -30>>, <<102528200, -29>>, <<131648815, -29>>, <<169040424, -29>>, <<217052201, -29>>, <<278700543, -29>>, <<357858581, -29>>, <<459499513, -29>>,
  <<590009054, -29>>, <<757586622, -29>>, <<972760477, -29>>, <<124904918, -28>>, <<160381089, -28>>, <<205933395, -28>>, <<264423713, -28>>, <<339526768, -28>>, <<435961000, -28>>, <<559785005, -28>>,
  <<718778174, -28>>, <<922929444, -28>>, <<118506486, -27>>, <<152165341, -27>>, <<195384165, -27>>, <<250878234, -27>>, <<322134029, -27>>, <<413628280, -27>>, <<531109225, -27>>, <<681957744, -27>>,
  <<875651076, -27>>, <<112435824, -26>>, <<144370456, -26>>, <<185375334, -26>>, <<238026641, -26>>, <<305632257, -26>>, <<392439586, -26>>, <<503902403, -26>>, <<647023493, -26>>, <<830794610, -26>>,
  <<106676139, -25>>, <<136974874, -25>>, <<175879220, -25>>, <<225833389, -25>>, <<289975811, -25>>, <<372336312, -25>>, <<478089288, -25>>, <<613878798, -25>>, <<788235979, -25>>, <<101211503, -24>>,
  <<129958143, -24>>, <<166869558, -24>>, <<214264754, -24>>, <<275121390, -24>>, <<353262857, -24>>, <<453598487, -24>>, <<582431987, -24>>, <<747857475, -24>>, <<960268005, -24>>, <<123300853, -23>>,
  <<158321429, -23>>, <<203288738, -23>>, <<261027907, -23>>, <<335166467, -23>>, <<430362262, -23>>, <<552596083, -23>>, <<709547416, -23>>, <<911076917, -23>>, <<116984592, -22>>, <<150211189, -22>>,
  <<192874985, -22>>, <<247656383, -22>>, <<317997090, -22>>, <<408316346, -22>>, <<524288566, -22>>, <<673199845, -22>>, <<864405711, -22>>, <<110991890, -21>>, <<142516408, -21>>, <<182994691, -21>>,
  <<234969834, -21>>, <<301707239, -21>>, <<387399763, -21>>, <<497431142, -21>>, <<638714229, -21>>, <<820125304, -21>>, <<105306174, -20>>, <<135215803, -20>>, <<173620528, -20>>, <<222933171, -20>>,
  <<286251858, -20>>, <<367554661, -20>>, <<471949527, -20>>, <<605995188, -20>>, <<778113224, -20>>, <<999117157, -20>>, <<128289182, -19>>, <<164726571, -19>>, <<211513104, -19>>, <<271588201, -19>>,
  <<348726153, -19>>, <<447773244, -19>>, <<574952226, -19>>, <<738253272, -19>>, <<947935965, -19>>, <<121717387, -18>>, <<156288219, -18>>, <<200678045, -18>>, <<257675711, -18>>, <<330862162, -18>>,
  <<424835426, -18>>, <<545499484, -18>>, <<700435203, -18>>, <<899376603, -18>>, <<115482242, -17>>, <<148282134, -17>>, <<190398028, -17>>, <<244475908, -17>>, <<313913279, -17>>, <<403072629, -17>>,
  <<517555501, -17>>, <<664554417, -17>>, <<853304763, -17>>, <<109566500, -16>>, <<140686171, -16>>, <<180644620, -16>>, <<231952283, -16>>, <<297832627, -16>>, <<382424663, -16>>, <<491042987, -16>>,
  <<630511676, -16>>, <<809593018, -16>>, <<103953801, -15>>, <<133479323, -15>>, <<171390843, -15>>, <<220070199, -15>>, <<282575729, -15>>, <<362834418, -15>>, <<465888615, -15>>, <<598212822, -15>>,
  <<768120469, -15>>, <<986286205, -15>>, <<126641655, -14>>, <<162611104, -14>>, <<208796791, -14>>, <<268100387, -14>>, <<344247711, -14>>, <<442022810, -14>>, <<567568523, -14>>, <<728772410, -14>>,
  <<935762297, -14>>, <<120154257, -13>>, <<154281120, -13>>, <<198100880, -13>>, <<254366565, -13>>, <<326613134, -13>>, <<419379566, -13>>, <<538494022, -13>>, <<691440011, -13>>, <<887826548, -13>>,
  <<113999185, -12>>, <<146377851, -12>>, <<187952882, -12>>, <<241336277, -12>>, <<309881914, -12>>, <<397896254, -12>>, <<510908903, -12>>, <<656020017, -12>>, <<842346375, -12>>, <<108159416, -11>>,
  <<138879439, -11>>, <<178324729, -11>>, <<228973485, -11>>, <<294007774, -11>>, <<377513454, -11>>, <<484736871, -11>>, <<622414462, -11>>, <<799195989, -11>>, <<102618796, -10>>, <<131765143, -10>>,
  <<169189792, -10>>, <<217243993, -10>>, <<278946809, -10>>, <<358174793, -10>>, <<459905538, -10>>, <<590530400, -10>>, <<758256042, -10>>, <<973620030, -10>>, <<125015286, -9>>, <<160522805, -9>>,
  <<206115362, -9>>, <<264657363, -9>>, <<339826781, -9>>, <<436346223, -9>>, <<560279641, -9>>, <<719413298, -9>>, <<923744958, -9>>, <<118611200, -8>>, <<152299795, -8>>, <<195556807, -8>>,
  <<251099909, -8>>, <<322418663, -8>>, <<413993755, -8>>, <<531578497, -8>>, <<682560291, -8>>, <<876424745, -8>>, <<112535162, -7>>, <<144498004, -7>>, <<185539102, -7>>, <<238236910, -7>>,
  <<305902227, -7>>, <<392786200, -7>>, <<504347408, -7>>, <<647594798, -7>>, <<831528028, -7>>, <<106770287, -6>>, <<137095721, -6>>, <<176034321, -6>>, <<226032430, -6>>, <<290231199, -6>>,
  <<372663928, -6>>, <<478509449, -6>>, <<614417460, -6>>, <<788926259, -6>>, <<101299910, -5>>, <<130071285, -5>>, <<167014218, -5>>, <<214449484, -5>>, <<275356911, -5>>, <<353562507, -5>>,
  <<453978687, -5>>, <<582912657, -5>>, <<748462275, -5>>, <<961024155, -5>>, <<123394576, -4>>, <<158436219, -4>>, <<203426978, -4>>, <<261190319, -4>>, <<335350130, -4>>, <<430557081, -4>>,
  <<552778637, -4>>, <<709670399, -4>>, <<911051194, -4>>, <<116951027, -3>>, <<150118226, -3>>, <<192673466, -3>>, <<247262316, -3>>, <<317268284, -3>>, <<407013772, -3>>, <<522012569, -3>>,
  <<669285092, -3>>, <<857748541, -3>>, <<109869426, -2>>, <<140636270, -2>>, <<179862100, -2>>, <<229773699, -2>>, <<293122308, -2>>, <<373268873, -2>>, <<474258732, -2>>, <<600866502, -2>>,
  <<758581800, -2>>, <<953494649, -2>>, <<119202922, -1>>, <<148047198, -1>>, <<182425524, -1>>, <<222700139, -1>>, <<268941421, -1>>, <<320821301, -1>>, <<377540669, -1>>, <<437823499, -1>>,
  <<500000000, -1>>, <<562176501, -1>>, <<622459331, -1>>, <<679178699, -1>>, <<731058579, -1>>, <<777299861, -1>>, <<817574476, -1>>, <<851952802, -1>>, <<880797078, -1>>, <<904650535, -1>>,
  <<924141820, -1>>, <<939913350, -1>>, <<952574127, -1>>, <<962673113, -1>>, <<970687769, -1>>, <<977022630, -1>>, <<982013790, -1>>, <<985936373, -1>>, <<989013057, -1>>, <<991422515, -1>>,
  <<993307149, -1>>, <<994779874, -1>>, <<995929862, -1>>, <<996827317, -1>>, <<997527377, -1>>, <<998073265, -1>>, <<998498818, -1>>, <<998830490, -1>>, <<999088949, -1>>, <<999290330, -1>>,
  <<999447221, -1>>, <<999569443, -1>>, <<999664650, -1>>, <<999738810, -1>>, <<999796573, -1>>, <<999841564, -1>>, <<999876605, -1>>, <<999903898, -1>>, <<999925154, -1>>, <<999941709, -1>>,
  <<999954602, -1>>, <<999964644, -1>>, <<999972464, -1>>, <<999978555, -1>>, <<999983299, -1>>, <<999986993, -1>>, <<999989870, -1>>, <<999992111, -1>>, <<999993856, -1>>, <<999995215, -1>>,
  <<999996273, -1>>, <<999997098, -1>>, <<999997740, -1>>, <<999998240, -1>>, <<999998629, -1>>, <<999998932, -1>>, <<999999168, -1>>, <<999999352, -1>>, <<999999496, -1>>, <<999999607, -1>>,
  <<999999694, -1>>, <<999999762, -1>>, <<999999814, -1>>, <<999999856, -1>>, <<999999887, -1>>, <<999999912, -1>>, <<999999932, -1>>, <<999999947, -1>>, <<999999959, -1>>, <<999999968, -1>>,
  <<999999975, -1>>, <<999999980, -1>>, <<999999985, -1>>, <<999999988, -1>>, <<999999991, -1>>, <<999999993, -1>>, <<999999994, -1>>, <<999999996, -1>>, <<999999997, -1>>, <<999999997, -1>>,
  <<999999998, -1>>, <<999999998, -1>>, <<999999999, -1>>, <<999999999, -1>>, <<999999999, -1>>, <<999999999, -1>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>, <<100000000, 0>>,
  <<100000000, 0>> >>
\* log(p / (1 - p)) in micro, p = j / 64, j = 1..63
LogitTab == <<
  -4143135, -3433987, -3012262, -2708050, -2468100, -2268684, -2097141, -1945910, -1810109, -1686399,
  -1572397, -1466337, -1366876, -1272966, -1183770, -1098612, -1016934, -938270, -862224, -788457,
  -716678, -646627, -578078, -510826, -444686, -379490, -315081, -251314, -188052, -125163,
  -62520, 0, 62520, 125163, 188052, 251314, 315081, 379490, 444686, 510826,
  578078, 646627, 716678, 788457, 862224, 938270, 1016934, 1098612, 1183770, 1272966,
  1366876, 1466337, 1572397, 1686399, 1810109, 1945910, 2097141, 2268684, 2468100, 2708050,
  3012262, 3433987, 4143135 >>
\* log(2^j - 1) in micro, j = 1..24: minus the logit of 2^-j
TwoTab == <<
  0, 1098612, 1945910, 2708050, 3433987, 4143135, 4844187, 5541264, 6236370, 6930495,
  7624131, 8317522, 9010791, 9703999, 10397177, 11090340, 11783494, 12476645, 13169795, 13862943,
  14556090, 15249238, 15942385, 16635532 >>
LN2 == 693147
LN2C == 18  \* hundredths of a micro on top of LN2
LN3 == 1098612
LnDefaultMin == -20723266   \* log(10^-9)
LogitMilli == -9210240    \* logit(10^-4)
LogitMicro == -13815510   \* logit(10^-6)
\* an upper bound of exp(j), j = 0..11
ExpCeil == <<
  2, 3, 8, 21, 55, 149, 404, 1097, 2981, 8104,
  22027, 59875, 162755, 442414, 1202605, 3269018, 8886111, 24154953 >>
=============================================================================
