// Reference copy of the published spectral tables, 380..779 nm in steps of 1 nm (see tools/gen_ref_tables.py)
static const float REF_CIE1931_X[400] = {0.00136800006f,0.00150204997f,0.00164232799f,0.00180238194f,0.00199575699f,0.00223600003f,0.00253538508f,0.00289260293f,0.00330082909f,0.00375323603f,0.00424299994f,0.00476238923f,0.00533004804f,0.00597871188f,0.00674111722f,0.00765000004f,0.00875137281f,0.0100288801f,0.0114217f,0.0128690097f,0.0143100005f,0.0157044306f,0.0171474405f,0.0187812205f,0.0207480099f,0.0231899992f,0.0262073595f,0.0297824796f,0.0338809192f,0.0384682417f,0.0435100012f,0.0489955992f,0.055022601f,0.0617187992f,0.0692119971f,0.0776299983f,0.0869581103f,0.0971767232f,0.108406298f,0.120767199f,0.134379998f,0.149358198f,0.165395707f,0.181983098f,0.198611006f,0.214770004f,0.230186805f,0.244879693f,0.258777291f,0.271807909f,0.283899993f,0.29494381f,0.304896504f,0.313787311f,0.321645409f,0.328500003f,0.334351301f,0.339210093f,0.34312129f,0.346129596f,0.348280013f,0.349599898f,0.350147396f,0.350012988f,0.349287003f,0.348060012f,0.34637329f,0.344262391f,0.341808796f,0.339094102f,0.336199999f,0.333197713f,0.330041111f,0.326635689f,0.322886795f,0.318699986f,0.314025104f,0.308883995f,0.303290397f,0.2972579f,0.290800005f,0.283970088f,0.276721388f,0.268917799f,0.260422707f,0.251100004f,0.240847498f,0.229851201f,0.218407199f,0.206811503f,0.195360005f,0.184213594f,0.173327297f,0.162688106f,0.152283296f,0.142100006f,0.132178605f,0.122569598f,0.1132752f,0.104297899f,0.0956400037f,0.0872995481f,0.0793080404f,0.0717177615f,0.0645809919f,0.0579500087f,0.0518621095f,0.0462815203f,0.0411508791f,0.0364128314f,0.0320100002f,0.0279172007f,0.0241443999f,0.0206870008f,0.0175404008f,0.0147000002f,0.0121617904f,0.00991996005f,0.00796724018f,0.00629634596f,0.00490000006f,0.00377717311f,0.00294531998f,0.00242487993f,0.00223629293f,0.00240000011f,0.00292552006f,0.00383656006f,0.00517483987f,0.00698208017f,0.00930000003f,0.0121494904f,0.0155358799f,0.0194775201f,0.0239927694f,0.0291000009f,0.0348148495f,0.0411201604f,0.0479850397f,0.0553786084f,0.0632700026f,0.0716350079f,0.0804622397f,0.0897399634f,0.0994564518f,0.1096f,0.120167397f,0.131114498f,0.142367899f,0.153854206f,0.1655f,0.177257106f,0.189140007f,0.201169401f,0.213365793f,0.225749895f,0.238320902f,0.251066804f,0.26399219f,0.277101696f,0.290399998f,0.303891212f,0.317572594f,0.331438392f,0.345482796f,0.359699994f,0.374083906f,0.388639599f,0.403378397f,0.418311507f,0.433449894f,0.448795289f,0.464336008f,0.480064005f,0.495971292f,0.512050092f,0.528295875f,0.544691622f,0.561209381f,0.577821493f,0.594500005f,0.611220896f,0.627975821f,0.644760191f,0.661569715f,0.67839998f,0.695239186f,0.712058604f,0.728828371f,0.745518804f,0.762099981f,0.778543174f,0.794825613f,0.810926378f,0.826824784f,0.842499971f,0.857932508f,0.873081625f,0.887894392f,0.90231812f,0.916299999f,0.929799497f,0.942798376f,0.955277622f,0.967217922f,0.978600025f,0.989385605f,0.999548793f,1.00908923f,1.01800644f,1.02629995f,1.03398275f,1.04098594f,1.04718804f,1.05246675f,1.05669999f,1.05979443f,1.06179917f,1.06280684f,1.0629096f,1.06219995f,1.06073523f,1.05844355f,1.05522442f,1.05097675f,1.04560006f,1.03903687f,1.03136075f,1.02266622f,1.0130477f,1.00259995f,0.991367519f,0.979331374f,0.96649158f,0.952847898f,0.938399971f,0.923193991f,0.907244027f,0.890501976f,0.872919977f,0.854449928f,0.835084021f,0.814945996f,0.794185996f,0.772953987f,0.751399994f,0.729583621f,0.707588792f,0.685602188f,0.663810372f,0.642400026f,0.621514916f,0.601113796f,0.581105173f,0.561397672f,0.541899979f,0.522599518f,0.503546417f,0.484743595f,0.466193914f,0.447899997f,0.429861307f,0.412097991f,0.394643992f,0.377533287f,0.360799998f,0.344456285f,0.328516811f,0.313019186f,0.298001111f,0.283499986f,0.26954481f,0.256118387f,0.243189603f,0.230727196f,0.218700007f,0.207097098f,0.195923194f,0.185170799f,0.174832299f,0.164900005f,0.155366704f,0.146229997f,0.137490004f,0.129146695f,0.121200003f,0.113639697f,0.106464997f,0.0996904373f,0.0933306068f,0.0873999968f,0.0819009617f,0.0768042803f,0.0720771179f,0.0676866397f,0.0636000037f,0.0598068498f,0.0562821589f,0.052971039f,0.0498186089f,0.046769999f,0.0437840484f,0.0408753604f,0.0380726382f,0.0354046114f,0.0329000019f,0.0305641908f,0.0283805598f,0.0263448395f,0.0244527496f,0.0227000006f,0.02108429f,0.0195998792f,0.0182373207f,0.0169871692f,0.0158399995f,0.0147906402f,0.0138313202f,0.0129486797f,0.0121291997f,0.0113591598f,0.0106293503f,0.00993884634f,0.00928842183f,0.00867885444f,0.00811091624f,0.00758238789f,0.00708874594f,0.00662731286f,0.00619540783f,0.00579034584f,0.00540982606f,0.00505258283f,0.00471751206f,0.00440350687f,0.00410945714f,0.00383391301f,0.00357574807f,0.00333434204f,0.0031090749f,0.00289932708f,0.00270434795f,0.00252301991f,0.0023541681f,0.00219661603f,0.00204918999f,0.00191095995f,0.00178143801f,0.00166010996f,0.00154645904f,0.00143997103f,0.00134004198f,0.00124627503f,0.00115847099f,0.00107642997f,0.00099994929f,0.000928735826f,0.000862433226f,0.000800750277f,0.000743395998f,0.000690078596f,0.000640515587f,0.000594502082f,0.000551864621f,0.000512428989f,0.000476021291f,0.000442453602f,0.00041151169f,0.000382981409f,0.000356649107f,0.000332301104f,0.000309758587f,0.000288887095f,0.000269539392f,0.000251568214f,0.000234826104f,0.000219170994f,0.000204525801f,0.000190840496f,0.000178065398f,0.000166150494f,0.000155023605f,0.000144621896f,0.000134909802f,0.000125852006f,0.000117413001f,0.000109551504f,0.000102224498f,9.53944473e-05f,8.90239025e-05f,8.30752688e-05f,7.751269e-05f,7.23130433e-05f,6.74577823e-05f,6.29284405e-05f,5.87065188e-05f,5.47702803e-05f,5.10991813e-05f,4.76765417e-05f,4.44856705e-05f};
static const float REF_CIE1931_Y[400] = {3.89999987e-05f,4.28263993e-05f,4.69145998e-05f,5.1589599e-05f,5.71763994e-05f,6.39999998e-05f,7.23442135e-05f,8.22122383e-05f,9.35081625e-05f,0.000106136104f,0.000119999997f,0.000134984002f,0.000151492f,0.000170208004f,0.000191815998f,0.000216999993f,0.000246906711f,0.000281240005f,0.000318520004f,0.00035726669f,0.000395999989f,0.000433714711f,0.000473024003f,0.000517876004f,0.000572218676f,0.000639999984f,0.000724559999f,0.000825499999f,0.000941160019f,0.00106987997f,0.00121000002f,0.00136209105f,0.00153075205f,0.00172036805f,0.001935323f,0.00218000007f,0.00245480007f,0.00276400009f,0.00311779999f,0.00352640008f,0.00400000019f,0.00454623997f,0.00515931984f,0.00582927978f,0.00654616021f,0.00730000017f,0.00808650721f,0.00890871976f,0.00976768043f,0.0106644304f,0.0115999999f,0.0125731695f,0.0135827204f,0.0146296797f,0.0157150906f,0.0168399997f,0.0180073604f,0.0192144793f,0.0204539206f,0.0217182394f,0.023f,0.0242946092f,0.0256102402f,0.0269585699f,0.0283512492f,0.0297999997f,0.0313108303f,0.0328836814f,0.0345211215f,0.0362257101f,0.0379999988f,0.0398466699f,0.0417679995f,0.0437659994f,0.0458426699f,0.0480000004f,0.0502436794f,0.0525730401f,0.0549805611f,0.0574587211f,0.0599999987f,0.0626019686f,0.0652775168f,0.0680420771f,0.0709110871f,0.0738999993f,0.0770160034f,0.0802664012f,0.0836668015f,0.0872327983f,0.0909800008f,0.0949175507f,0.0990458429f,0.103367403f,0.107884601f,0.112599999f,0.117532f,0.122674398f,0.127992794f,0.133452803f,0.139019996f,0.144676402f,0.150469303f,0.156461895f,0.1627177f,0.169300005f,0.176243097f,0.183558106f,0.191273496f,0.199417993f,0.208020002f,0.217119902f,0.226734504f,0.236857101f,0.247481197f,0.258599997f,0.270184904f,0.282293886f,0.295050502f,0.308578014f,0.323000014f,0.338402092f,0.354685813f,0.371698588f,0.389287502f,0.407299995f,0.425629914f,0.444309592f,0.463394403f,0.482939512f,0.503000021f,0.523569286f,0.544511974f,0.565689981f,0.586965322f,0.608200014f,0.629345596f,0.650306821f,0.670875192f,0.69084239f,0.709999979f,0.728185177f,0.74546361f,0.761969388f,0.7778368f,0.793200016f,0.808110416f,0.822496176f,0.83630681f,0.849491596f,0.861999989f,0.873810828f,0.88496238f,0.895493627f,0.905443192f,0.914850116f,0.923734784f,0.932092428f,0.939922571f,0.947225213f,0.953999996f,0.9602561f,0.966007411f,0.971260607f,0.976022482f,0.980300009f,0.984092414f,0.987418175f,0.990312815f,0.99281162f,0.994950116f,0.996710777f,0.998098314f,0.99911201f,0.99974817f,1.f,0.99985671f,0.999304593f,0.998325527f,0.996898711f,0.995000005f,0.992600501f,0.989742577f,0.986444414f,0.982724071f,0.978600025f,0.974083722f,0.969171226f,0.963856816f,0.95813489f,0.952000022f,0.945450425f,0.938499212f,0.931162775f,0.923457623f,0.915400028f,0.907006383f,0.898277223f,0.8892048f,0.879781604f,0.870000005f,0.859861314f,0.849391997f,0.838621974f,0.827581286f,0.816299975f,0.804794729f,0.793081999f,0.781192005f,0.769154727f,0.757000029f,0.744754076f,0.732422411f,0.720003605f,0.707496524f,0.694899976f,0.682219207f,0.669471622f,0.656674385f,0.643844783f,0.630999982f,0.618155479f,0.605314374f,0.592475593f,0.579637885f,0.566799998f,0.553961098f,0.541137218f,0.528352797f,0.515632272f,0.503000021f,0.4904688f,0.478030413f,0.465677589f,0.453403205f,0.441199988f,0.429080009f,0.417035997f,0.405032009f,0.393032014f,0.381000012f,0.368918389f,0.356827199f,0.344776809f,0.332817614f,0.32100001f,0.309338093f,0.2978504f,0.286593586f,0.275624514f,0.264999986f,0.254763186f,0.244889602f,0.235334396f,0.226052806f,0.216999993f,0.208161607f,0.199548796f,0.191155195f,0.182974398f,0.174999997f,0.167223498f,0.159646407f,0.152277604f,0.145125896f,0.1382f,0.131500304f,0.125024796f,0.118779197f,0.112769097f,0.107000001f,0.1014762f,0.0961886421f,0.0911229625f,0.0862648487f,0.0816000029f,0.0771206394f,0.0728255212f,0.0687100813f,0.0647697598f,0.0610000007f,0.0573962107f,0.0539550409f,0.0506737605f,0.0475496501f,0.0445800014f,0.0417587198f,0.0390849598f,0.0365638398f,0.0342004783f,0.0320000015f,0.0299626105f,0.0280766394f,0.0263293609f,0.0247080494f,0.0231999997f,0.0218007695f,0.02050112f,0.01928108f,0.0181206893f,0.0170000009f,0.0159037896f,0.0148371803f,0.0138106802f,0.0128347799f,0.0119200004f,0.0110683097f,0.0102733904f,0.00953331124f,0.00884615723f,0.00820999965f,0.00762378098f,0.00708542392f,0.00659147603f,0.00613848493f,0.00572300004f,0.00534305908f,0.0049957959f,0.00467640394f,0.0043800748f,0.00410200004f,0.00383845298f,0.00358909904f,0.00335421902f,0.00313409301f,0.00292899995f,0.00273813889f,0.00255987607f,0.00239324407f,0.00223727501f,0.00209100009f,0.00195358694f,0.00182458002f,0.00170358003f,0.00159018696f,0.00148400001f,0.00138449599f,0.00129126804f,0.00120409206f,0.00112274406f,0.00104700006f,0.000976589625f,0.0009111088f,0.00085013319f,0.000793238403f,0.000739999989f,0.000690082728f,0.000643310021f,0.000599496008f,0.000558454718f,0.000520000001f,0.000483913609f,0.000450052787f,0.000418345211f,0.000388718414f,0.000361100014f,0.000335383491f,0.00031144041f,0.000289165589f,0.000268453907f,0.000249200006f,0.000231301907f,0.000214685599f,0.000199288406f,0.000185047495f,0.000171899999f,0.000159778094f,0.000148604406f,0.000138301606f,0.000128792497f,0.000119999997f,0.000111859503f,0.000104322397f,9.73356e-05f,9.08458678e-05f,8.47999981e-05f,7.91466664e-05f,7.38579984e-05f,6.89160006e-05f,6.43026724e-05f,5.99999985e-05f,5.59818691e-05f,5.22256014e-05f,4.87184006e-05f,4.54474684e-05f,4.23999991e-05f,3.95610405e-05f,3.69151203e-05f,3.44486798e-05f,3.21481602e-05f,2.99999992e-05f,2.79912492e-05f,2.61135592e-05f,2.43602408e-05f,2.27246092e-05f,2.11999995e-05f,1.97785503e-05f,1.84528508e-05f,1.72168693e-05f,1.60645905e-05f};
static const float REF_CIE1931_Z[400] = {0.00645000115f,0.00708321622f,0.00774548808f,0.00850115158f,0.00941454433f,0.0105499905f,0.0119658001f,0.0136558702f,0.0155880498f,0.0177301504f,0.0200500097f,0.0225113593f,0.0252028797f,0.0282797199f,0.0318970382f,0.0362100005f,0.0414377116f,0.047503721f,0.0541198812f,0.06099803f,0.0678500086f,0.0744863227f,0.081361562f,0.08915364f,0.0985404775f,0.110200003f,0.1246133f,0.141701698f,0.161303505f,0.183256805f,0.207399994f,0.233692095f,0.262611389f,0.294774592f,0.330798507f,0.371300012f,0.416209102f,0.465464205f,0.519694805f,0.579530299f,0.645600021f,0.718483806f,0.796713293f,0.877845883f,0.95943898f,1.0390501f,1.11536729f,1.18849707f,1.25812328f,1.32392955f,1.38559997f,1.44263518f,1.49480355f,1.54219031f,1.58488071f,1.62295997f,1.65640485f,1.68529594f,1.70987451f,1.73038208f,1.74705994f,1.76004457f,1.76962328f,1.77626371f,1.78043342f,1.78260005f,1.78296816f,1.78169978f,1.77919817f,1.7758671f,1.77210999f,1.76825893f,1.76403904f,1.7589438f,1.75246632f,1.74409997f,1.73355949f,1.7208581f,1.70593691f,1.68873715f,1.66919994f,1.64752865f,1.62341273f,1.59602225f,1.56452799f,1.52810001f,1.4861114f,1.43952155f,1.38987994f,1.33873618f,1.28763998f,1.23742235f,1.18782425f,1.13876104f,1.09014797f,1.04190004f,0.994197607f,0.947347283f,0.901453078f,0.856619298f,0.812950075f,0.77051729f,0.729444802f,0.689913571f,0.652104914f,0.61619997f,0.582328618f,0.550416172f,0.520337582f,0.491967291f,0.46518001f,0.439924598f,0.416183591f,0.393882185f,0.372945905f,0.353300005f,0.334857792f,0.31755209f,0.30133751f,0.286168605f,0.272000015f,0.258817106f,0.246483803f,0.234771803f,0.223453298f,0.212300003f,0.201169193f,0.190119594f,0.1792254f,0.168560803f,0.158199996f,0.1481383f,0.138375804f,0.128994197f,0.120075099f,0.111699998f,0.103904799f,0.0966674834f,0.0899827182f,0.0838453099f,0.0782499909f,0.0732089877f,0.068678163f,0.0645678416f,0.0607883483f,0.0572500117f,0.0539043508f,0.0507466383f,0.0477527604f,0.0448985882f,0.0421600007f,0.039507281f,0.0369356386f,0.0344583616f,0.0320887193f,0.02984f,0.0277118105f,0.0256944392f,0.0237871595f,0.0219892506f,0.0203000009f,0.0187180508f,0.0172403604f,0.0158636402f,0.0145846102f,0.0133999996f,0.0123072304f,0.0113018798f,0.0103779202f,0.00952930562f,0.00874999911f,0.00803519972f,0.00738159986f,0.00678540021f,0.00624280004f,0.00574999908f,0.00530359987f,0.00489979982f,0.00453419983f,0.00420239987f,0.00389999989f,0.00362320011f,0.00337060005f,0.00314139994f,0.0029348f,0.00274999905f,0.00258519989f,0.00243859994f,0.00230939989f,0.00219679996f,0.00209999993f,0.00201773294f,0.00194820005f,0.00188979995f,0.00184093299f,0.00179999997f,0.001766267f,0.00173779996f,0.00171119999f,0.00168306695f,0.00165000104f,0.00161013298f,0.00156440004f,0.0015136f,0.00145853299f,0.00139999995f,0.00133666699f,0.00127000001f,0.00120499998f,0.00114666705f,0.00109999999f,0.00106879999f,0.00104939996f,0.00103559997f,0.00102119998f,0.00100000005f,0.000968639972f,0.000929920003f,0.000886879978f,0.000842560024f,0.00079999998f,0.000760959985f,0.000723680016f,0.000685920008f,0.000645440014f,0.000600000028f,0.000547866686f,0.000491600018f,0.000435399998f,0.000383466686f,0.000339999999f,0.0003072533f,0.000283160014f,0.000265440001f,0.000251813297f,0.000239999994f,0.000229546698f,0.000220639995f,0.000211959996f,0.000202186697f,0.000190000006f,0.000174213303f,0.000155639995f,0.000135959999f,0.000116853298f,9.99999975e-05f,8.61333319e-05f,7.46000005e-05f,6.50000002e-05f,5.69333315e-05f,4.99999915e-05f,4.41599987e-05f,3.94800009e-05f,3.57200006e-05f,3.26400004e-05f,2.99999992e-05f,2.76533301e-05f,2.55600007e-05f,2.36399992e-05f,2.181333e-05f,1.99999995e-05f,1.81333307e-05f,1.61999997e-05f,1.41999999e-05f,1.21333296e-05f,9.99999975e-06f,7.73332977e-06f,5.40000019e-06f,3.20000004e-06f,1.33333003e-06f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_CIE2012_X[400] = {0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.0037696471f,0.00453241589f,0.00544655323f,0.00653886795f,0.00783969928f,0.00938296691f,0.0112060802f,0.0133496504f,0.0158568993f,0.0187728591f,0.0221430194f,0.0260128509f,0.0304303598f,0.0354432501f,0.0410964005f,0.0474298596f,0.0544739403f,0.0622361191f,0.0707004815f,0.0798251331f,0.0895380303f,0.0997484773f,0.110401899f,0.121456601f,0.132874101f,0.144621402f,0.156646803f,0.168790102f,0.180832803f,0.192521602f,0.203572899f,0.213753104f,0.223134801f,0.231924504f,0.240389198f,0.248852298f,0.257589608f,0.266499102f,0.275353193f,0.283892095f,0.291824609f,0.298920006f,0.305299312f,0.311203092f,0.316904694f,0.322708696f,0.328819394f,0.334924191f,0.340545207f,0.345168799f,0.348255396f,0.349415302f,0.348907501f,0.347174615f,0.344670504f,0.341848314f,0.339024007f,0.335992604f,0.332427591f,0.328015715f,0.322463691f,0.315622509f,0.307820112f,0.2994771f,0.290977597f,0.282664597f,0.274796188f,0.2674312f,0.260584712f,0.254274905f,0.248525396f,0.243303895f,0.238341406f,0.233325303f,0.227961898f,0.221978098f,0.215173498f,0.207561895f,0.199218303f,0.190228999f,0.180690497f,0.170715407f,0.160447106f,0.150024399f,0.139570504f,0.129191995f,0.118985899f,0.109061502f,0.0995142385f,0.0904185027f,0.0818289518f,0.0737681687f,0.0661947727f,0.0590637997f,0.0523424186f,0.0460086502f,0.0400615409f,0.0345437303f,0.0294909105f,0.0249214005f,0.0208398104f,0.0172359105f,0.0140792402f,0.0113451602f,0.00901965797f,0.00709773088f,0.0055711451f,0.00439456617f,0.00351630291f,0.00288763805f,0.00246158801f,0.00220634812f,0.00214955909f,0.0023370909f,0.00281893089f,0.00364917796f,0.00489135878f,0.0066293641f,0.00894290209f,0.0119022401f,0.0155698899f,0.0199766792f,0.02504698f,0.0306752995f,0.0367499888f,0.0431517102f,0.0497858413f,0.0566855408f,0.0639165118f,0.0715435222f,0.0796291679f,0.0882147327f,0.0972697809f,0.106750399f,0.1166192f,0.126846805f,0.137406006f,0.148247093f,0.159307599f,0.1705181f,0.181802601f,0.193109006f,0.204508498f,0.216116607f,0.228064999f,0.240501493f,0.253544092f,0.267129987f,0.281135112f,0.295416415f,0.309811711f,0.324167788f,0.338431895f,0.35257861f,0.366583914f,0.38042441f,0.394098788f,0.407697201f,0.421348393f,0.435200304f,0.449420601f,0.464161605f,0.479439497f,0.495218009f,0.511439502f,0.528023303f,0.544869602f,0.561889827f,0.579013705f,0.596188188f,0.613378406f,0.630589724f,0.647922277f,0.665486574f,0.68337822f,0.701677382f,0.720411003f,0.739449501f,0.758628488f,0.77778852f,0.796774983f,0.815452993f,0.833738923f,0.851549327f,0.868786216f,0.885337591f,0.90115881f,0.916527808f,0.931824505f,0.947452426f,0.963838816f,0.981259584f,0.999295294f,1.01734304f,1.03479004f,1.05101097f,1.06552196f,1.078421f,1.08994401f,1.10031998f,1.10976696f,1.11843801f,1.126266f,1.13313794f,1.13895202f,1.14362001f,1.14709496f,1.14946401f,1.15083802f,1.15132594f,1.15103304f,1.150002f,1.14806104f,1.14499795f,1.14062202f,1.13475704f,1.127298f,1.11834204f,1.10803294f,1.09651506f,1.08392799f,1.07038701f,1.05593395f,1.04059196f,1.02438498f,1.00734401f,0.989526808f,0.971121311f,0.952325702f,0.933324814f,0.914287686f,0.895279825f,0.876015723f,0.8561607f,0.835423529f,0.813556492f,0.790456474f,0.766436398f,0.741877675f,0.717121899f,0.692471683f,0.668160021f,0.644269705f,0.62084502f,0.597924292f,0.575541019f,0.553729594f,0.532541215f,0.51202178f,0.492206991f,0.473122388f,0.454741687f,0.436871886f,0.41931209f,0.401897997f,0.384498596f,0.367059201f,0.349716693f,0.332630485f,0.315934092f,0.299737394f,0.284118891f,0.269105285f,0.254707694f,0.240931898f,0.227779195f,0.215243101f,0.203300998f,0.191927597f,0.1810987f,0.170791402f,0.160984203f,0.151657701f,0.142793596f,0.134373695f,0.126380801f,0.118797898f,0.111608803f,0.104797497f,0.0983483493f,0.0922459736f,0.0864750594f,0.0810198635f,0.075865142f,0.0709963292f,0.0663995966f,0.0620622486f,0.0579740889f,0.0541253313f,0.0505059995f,0.0471060611f,0.0439141095f,0.0409141108f,0.0380906686f,0.0354303382f,0.0329213813f,0.0305567198f,0.0283414591f,0.0262803305f,0.0243746508f,0.0226230603f,0.0210193507f,0.0195464697f,0.0181872696f,0.0169272702f,0.0157541707f,0.0146585396f,0.0136357099f,0.0126820495f,0.0117939403f,0.0109677799f,0.0101996399f,0.00948431715f,0.0088168513f,0.00819292106f,0.0076087499f,0.00706139114f,0.00654950878f,0.00607196987f,0.00562747614f,0.00521460781f,0.0048318482f,0.00447757915f,0.00415016618f,0.00384798809f,0.00356945209f,0.00331285689f,0.00307602203f,0.00285689393f,0.00265368097f,0.0024648211f,0.00228906004f,0.00212569395f,0.00197412097f,0.00183372304f,0.00170387595f,0.00158390403f,0.00147293904f,0.00137015095f,0.00127480295f,0.00118623802f,0.00110387104f,0.00102719397f,0.000955749303f,0.000889126211f,0.000826953503f,0.000768935075f,0.000714942522f,0.000664859021f,0.000618542079f,0.000575830287f,0.000536504609f,0.000500184193f,0.000466500496f,0.000435138587f,0.000405830302f,0.000378373312f,0.000352689211f,0.000328719907f,0.000306399801f,0.000285657705f,0.000266410789f,0.000248546188f,0.000231952901f,0.000216529996f,0.0002021853f,0.000188833801f,0.0001763935f,0.000164789497f,0.000153954199f,0.000143826997f,0.000134357193f,0.000125514096f,0.000117270603f,0.000109598303f,0.000102468497f,9.5847201e-05f,8.96831989e-05f,8.3927298e-05f,7.85371012e-05f,7.34755013e-05f,6.87158026e-05f,6.42525993e-05f,6.00829007e-05f,5.62009991e-05f,5.25987016e-05f,4.92627987e-05f,4.61661984e-05f,4.32820998e-05f,4.05872015e-05f};
static const float REF_CIE2012_Y[400] = {0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.000414616108f,0.000502833282f,0.000608499104f,0.000734443602f,0.000883738918f,0.00105964602f,0.00126553199f,0.00150475302f,0.00178049295f,0.00209557195f,0.00245219399f,0.0028522159f,0.00329911499f,0.00379746594f,0.00435276795f,0.00497171702f,0.005661014f,0.0064216149f,0.00725031178f,0.00814017281f,0.00907985959f,0.0100560803f,0.0110645602f,0.01210522f,0.0131801404f,0.0142937703f,0.0154500399f,0.0166409295f,0.0178530198f,0.0190701801f,0.0202736892f,0.0214480497f,0.0226004105f,0.0237478893f,0.0249124691f,0.0261210594f,0.0273992307f,0.0287499297f,0.0301690903f,0.0316514485f,0.0331903808f,0.0347791202f,0.0364149511f,0.0380956903f,0.0398184285f,0.0415793993f,0.0433709808f,0.045171801f,0.0469541997f,0.0486871786f,0.0503365695f,0.0518761091f,0.0533221811f,0.0547060296f,0.0560633503f,0.0574339293f,0.0588510707f,0.0603080913f,0.0617864393f,0.0632657036f,0.0647235215f,0.0661474913f,0.0675725564f,0.0690492764f,0.0706328005f,0.0723833889f,0.0743596032f,0.0765938312f,0.0791143626f,0.081953451f,0.0851481631f,0.0887265727f,0.0926600769f,0.0968972296f,0.101374596f,0.106014498f,0.110737696f,0.115511097f,0.120312199f,0.125116095f,0.129895702f,0.134629905f,0.139330894f,0.144023493f,0.148737207f,0.153506607f,0.1583644f,0.163319901f,0.168376103f,0.173536494f,0.1788048f,0.184181899f,0.1896559f,0.195210099f,0.2008259f,0.206482798f,0.212182596f,0.218027905f,0.2241586f,0.230730206f,0.237915993f,0.245870605f,0.254602313f,0.264075994f,0.274248987f,0.285068005f,0.296483696f,0.308501005f,0.321139306f,0.334417492f,0.348353595f,0.3629601f,0.378227502f,0.394135892f,0.410658211f,0.427759498f,0.445399314f,0.4635396f,0.482137591f,0.501142979f,0.520497203f,0.540138721f,0.560020804f,0.580097198f,0.60031718f,0.620625615f,0.640939772f,0.661077201f,0.680813372f,0.699904382f,0.718088984f,0.735159278f,0.751182079f,0.766314328f,0.780735195f,0.794644773f,0.808207393f,0.821381688f,0.834070086f,0.846171081f,0.857579887f,0.868240774f,0.878306091f,0.887990713f,0.897521079f,0.907134712f,0.916994691f,0.926929474f,0.936673105f,0.945948184f,0.954467475f,0.961983383f,0.968438983f,0.973828912f,0.978151917f,0.981410623f,0.983666897f,0.985208094f,0.986381292f,0.987535715f,0.989022791f,0.991081119f,0.993491292f,0.995917201f,0.99802053f,0.999460816f,0.999993026f,0.999755681f,0.99898392f,0.997912288f,0.99677372f,0.995735586f,0.994711518f,0.9935534f,0.992115617f,0.990254879f,0.987859607f,0.984932423f,0.981503606f,0.977603495f,0.973261118f,0.968476415f,0.963136911f,0.957106173f,0.950254023f,0.942456901f,0.933689713f,0.924289286f,0.914670706f,0.905233324f,0.896361291f,0.888306916f,0.880846202f,0.873644471f,0.866375506f,0.858720303f,0.850429475f,0.841504693f,0.832010925f,0.822015405f,0.811586797f,0.800787389f,0.789651513f,0.778205276f,0.766473293f,0.754478514f,0.742247283f,0.729822874f,0.717252493f,0.704581797f,0.691855311f,0.679100871f,0.666284621f,0.653359473f,0.640280724f,0.62700659f,0.613514781f,0.599849403f,0.586068213f,0.572226107f,0.558374584f,0.544553518f,0.530767322f,0.517013013f,0.503288925f,0.489594996f,0.475944191f,0.462395787f,0.449015409f,0.435862213f,0.422989696f,0.410415202f,0.398035586f,0.385729998f,0.373390704f,0.360924512f,0.348286003f,0.335570186f,0.322896302f,0.310370386f,0.298086494f,0.286116004f,0.274482191f,0.263195306f,0.252262801f,0.241690204f,0.231480896f,0.2216378f,0.212162197f,0.203054205f,0.194312394f,0.185922697f,0.177827403f,0.169965401f,0.162284106f,0.154739693f,0.147308096f,0.140016899f,0.132901296f,0.1259913f,0.119312003f,0.112882003f,0.106711298f,0.100805201f,0.0951665267f,0.0897959396f,0.0846904367f,0.0798400864f,0.0752337202f,0.0708606094f,0.0667104498f,0.0627736002f,0.0590417907f,0.0555070303f,0.0521613918f,0.0489969887f,0.0460057817f,0.0431788489f,0.0405075513f,0.0379837602f,0.0355998203f,0.0333485603f,0.0312233195f,0.0292178001f,0.0273260102f,0.0255422294f,0.0238612108f,0.0222785901f,0.0207902007f,0.0193918496f,0.0180793907f,0.0168481693f,0.0156918801f,0.0146044604f,0.0135806203f,0.0126157301f,0.0117069604f,0.0108560799f,0.0100647602f,0.00933337584f,0.00866128411f,0.00804604776f,0.00748112984f,0.00695998687f,0.00647707004f,0.0060276771f,0.0056081689f,0.00521669118f,0.00485178502f,0.00451200781f,0.00419594115f,0.00390205695f,0.00362837105f,0.00337300496f,0.0031343149f,0.00291086407f,0.0027015279f,0.00250579603f,0.00232323096f,0.00215333304f,0.00199555699f,0.00184931594f,0.00171397603f,0.00158889894f,0.00147345301f,0.00136702205f,0.00126895402f,0.00117842096f,0.00109464396f,0.00101694302f,0.000944726926f,0.000877517101f,0.000815043808f,0.000757075497f,0.000703375496f,0.000653704978f,0.000607804803f,0.000565343478f,0.000526004587f,0.000489506114f,0.000455597008f,0.000424054801f,0.000394686009f,0.000367317814f,0.000341794104f,0.000317973812f,0.000295744103f,0.000275055791f,0.000255863997f,0.000238114197f,0.0002217445f,0.000206671102f,0.000192747393f,0.000179831506f,0.000167802296f,0.000156556605f,0.000146016799f,0.000136153496f,0.000126945102f,0.000118367097f,0.000110392801f,0.000102990802f,9.61183978e-05f,8.97331993e-05f,8.37968983e-05f,7.82744028e-05f,7.3133102e-05f,6.83413964e-05f,6.38704005e-05f,5.96938989e-05f,5.57886015e-05f,5.21350994e-05f,4.87217985e-05f,4.55385016e-05f,4.25744001e-05f,3.98187985e-05f,3.72588001e-05f,3.48747017e-05f,3.26476984e-05f,3.05614012e-05f,2.86018003e-05f,2.67584001e-05f,2.50293997e-05f,2.34137005e-05f,2.19090998e-05f,2.05125998e-05f,1.9219e-05f,1.80179995e-05f,1.68989991e-05f,1.58531002e-05f};
static const float REF_CIE2012_Z[400] = {0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.0184726007f,0.0222110096f,0.0266981907f,0.0320693702f,0.0384783186f,0.0460978411f,0.0551195294f,0.0657525733f,0.0782211274f,0.0927601308f,0.109609f,0.129007697f,0.151204705f,0.176444098f,0.204951704f,0.236924604f,0.272512287f,0.311782002f,0.354706407f,0.401147306f,0.450836897f,0.503416419f,0.558636129f,0.616273403f,0.676098228f,0.737882197f,0.801301897f,0.865557313f,0.929579079f,0.992129326f,1.05182099f,1.10750902f,1.15952694f,1.20886898f,1.25683403f,1.30500805f,1.35475802f,1.40559399f,1.45641398f,1.50595999f,1.55282605f,1.59590197f,1.63576806f,1.67357302f,1.71060395f,1.74828005f,1.78750396f,1.82660902f,1.86310804f,1.89433205f,1.91747904f,1.930529f,1.93481898f,1.93264997f,1.92639506f,1.918437f,1.91042995f,1.90122402f,1.88900006f,1.87199605f,1.84854496f,1.81779206f,1.78162706f,1.74251401f,1.70274901f,1.66443896f,1.62920702f,1.59736001f,1.56889606f,1.543823f,1.52215695f,1.50361097f,1.486673f,1.46959496f,1.45070899f,1.42843997f,1.40158701f,1.37009394f,1.33422005f,1.29427505f,1.25060999f,1.20369601f,1.15431595f,1.103284f,1.05134702f,0.999178886f,0.947395802f,0.896622181f,0.847398102f,0.800157607f,0.755237877f,0.712787926f,0.672519803f,0.634097576f,0.597243309f,0.561731279f,0.527492106f,0.494880915f,0.464258611f,0.435884088f,0.409931302f,0.386426091f,0.365056604f,0.345481187f,0.327409506f,0.310593903f,0.294810206f,0.279819399f,0.265410006f,0.251408398f,0.237675294f,0.224121094f,0.210748404f,0.197583899f,0.184657395f,0.172001794f,0.159691796f,0.1479415f,0.136942804f,0.126827896f,0.117679603f,0.109497003f,0.1020943f,0.095279932f,0.0889007524f,0.0828354806f,0.0770098194f,0.0714400113f,0.0661543608f,0.0611719899f,0.0565040708f,0.0521512106f,0.0480956584f,0.0443172008f,0.0407973416f,0.0375191197f,0.0344684608f,0.0316376388f,0.0290190093f,0.0266036391f,0.0243816394f,0.0223409701f,0.0204641502f,0.0187345594f,0.0171378795f,0.0156617407f,0.0142964404f,0.0130370203f,0.0118789701f,0.0108172502f,0.00984647032f,0.00896068662f,0.00815281086f,0.0074160248f,0.00674411515f,0.00613142084f,0.00557277817f,0.005063463f,0.0045991689f,0.0041759708f,0.00379029103f,0.00343895191f,0.0031193411f,0.00282903807f,0.00256572198f,0.00232718606f,0.0021112801f,0.00191576604f,0.00173858902f,0.00157792005f,0.00143212802f,0.00129978103f,0.00117966696f,0.00107069395f,0.00097186229f,0.000882253109f,0.000801023096f,0.000727388426f,0.000660634716f,0.000600114581f,0.000545241579f,0.000495484681f,0.000450364198f,0.000409445493f,0.0003723345f,0.000338673912f,0.000308139599f,0.000280437001f,0.000255299587f,0.000232485894f,0.000211777195f,0.0001929758f,0.000175902402f,0.000160394702f,0.000146305902f,0.000133503097f,0.000121866004f,0.000111285699f,0.000101663398f,9.29099988e-05f,8.49447024e-05f,7.76942979e-05f,7.10925015e-05f,6.50794027e-05f,5.96005993e-05f,5.46070987e-05f,5.0054201e-05f,4.5901601e-05f,4.21127006e-05f,3.86544016e-05f,3.54965996e-05f,3.2612199e-05f,2.99763997e-05f,2.75669008e-05f,2.53634007e-05f,2.33474002e-05f,2.15021992e-05f,1.98127e-05f,1.82650001e-05f,1.68466995e-05f,1.55463003e-05f,1.43535999e-05f,1.32592004e-05f,1.22543997e-05f,1.13317001e-05f,1.04839e-05f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_CIE1931_JuddVos_X[400] = {0.00268990011f,0.00321402005f,0.00373813999f,0.00426226016f,0.0047863801f,0.00531050004f,0.00640460011f,0.00749870017f,0.00859280024f,0.0096869003f,0.0107810004f,0.0127831995f,0.0147853997f,0.0167875998f,0.0187897999f,0.020792f,0.0242298003f,0.0276676007f,0.0311053991f,0.0345432013f,0.0379809998f,0.043016199f,0.0480513982f,0.0530866012f,0.0581218004f,0.0631569996f,0.0705137998f,0.0778705999f,0.0852274001f,0.0925842002f,0.0999410003f,0.111600801f,0.123260602f,0.134920403f,0.146580204f,0.158240005f,0.172488004f,0.186736003f,0.200984001f,0.215232f,0.229479998f,0.239800006f,0.250120014f,0.260439992f,0.27076f,0.281080008f,0.287054002f,0.293027997f,0.299001992f,0.304975986f,0.310950011f,0.314904004f,0.318857998f,0.322811991f,0.326766014f,0.330720007f,0.331247985f,0.331775993f,0.332304001f,0.332832009f,0.333359987f,0.330031991f,0.326703995f,0.323376f,0.320048004f,0.316720009f,0.311140001f,0.305559993f,0.299980015f,0.294400007f,0.288819999f,0.282994002f,0.277168006f,0.271342009f,0.265516013f,0.259689987f,0.254303992f,0.248917997f,0.243532002f,0.238146007f,0.232759997f,0.228205994f,0.223652005f,0.219098002f,0.214543998f,0.209989995f,0.202943996f,0.195897996f,0.188851997f,0.181805998f,0.174759999f,0.166382f,0.158004001f,0.149626002f,0.141248003f,0.132870004f,0.124684803f,0.116499603f,0.108314402f,0.100129202f,0.0919440016f,0.084952198f,0.0779604018f,0.0709685981f,0.0639768019f,0.0569849983f,0.0519342013f,0.0468834005f,0.0418325998f,0.036781799f,0.0317309983f,0.0283074006f,0.0248837993f,0.0214601997f,0.0180366002f,0.0146129997f,0.0126602203f,0.0107074399f,0.00875466038f,0.00680187996f,0.00484910002f,0.00434357999f,0.00383805996f,0.00333253993f,0.0028270199f,0.0023215001f,0.00371518009f,0.00510885986f,0.00650253985f,0.00789622031f,0.00928989984f,0.01328752f,0.0172851402f,0.0212827604f,0.0252803806f,0.0292780008f,0.0361806005f,0.0430831984f,0.0499857999f,0.0568884015f,0.0637909994f,0.0731948018f,0.0825985968f,0.0920023993f,0.101406202f,0.110809997f,0.122032002f,0.133254007f,0.144475996f,0.155698001f,0.166920006f,0.179071993f,0.191223994f,0.203375995f,0.215527996f,0.227679998f,0.240682006f,0.253684014f,0.266685992f,0.279688001f,0.292690009f,0.306602001f,0.320513994f,0.334425986f,0.348338008f,0.36225f,0.37707001f,0.391889989f,0.406709999f,0.421530008f,0.436349988f,0.452105999f,0.46786201f,0.483617991f,0.499374002f,0.515129983f,0.531599998f,0.548070014f,0.564540029f,0.581009984f,0.597479999f,0.614225984f,0.630972028f,0.647718012f,0.664463997f,0.681209981f,0.697817981f,0.714425981f,0.731033981f,0.747641981f,0.76424998f,0.780188024f,0.796126008f,0.812063992f,0.828001976f,0.84394002f,0.858421981f,0.872904003f,0.887386024f,0.901867986f,0.916350007f,0.92848599f,0.940621972f,0.952758014f,0.964893997f,0.977029979f,0.986223996f,0.995418012f,1.00461197f,1.01380599f,1.023f,1.02866006f,1.03432f,1.03998005f,1.04563999f,1.05130005f,1.05203998f,1.05278003f,1.05351996f,1.05426002f,1.05499995f,1.05123997f,1.04747999f,1.04372001f,1.03996003f,1.03620005f,1.02743804f,1.01867604f,1.00991404f,1.00115204f,0.992389977f,0.979633987f,0.966877997f,0.954122007f,0.941366017f,0.928610027f,0.911580026f,0.894550025f,0.877520025f,0.860490024f,0.843460023f,0.822733998f,0.802007973f,0.781282008f,0.760555983f,0.739830017f,0.718442023f,0.697054029f,0.675665975f,0.65427798f,0.632889986f,0.613013983f,0.59313798f,0.573261976f,0.553385973f,0.533510029f,0.514931977f,0.496354014f,0.477775991f,0.459197998f,0.440620005f,0.423402011f,0.406183988f,0.388965994f,0.371748f,0.354530007f,0.339347988f,0.324166f,0.308984011f,0.293801993f,0.278620005f,0.265866011f,0.253111988f,0.240357995f,0.227604002f,0.214849994f,0.204201996f,0.193553999f,0.182906002f,0.172258005f,0.161610007f,0.152927995f,0.144245997f,0.135563999f,0.126882002f,0.118199997f,0.111710601f,0.105221197f,0.0987318009f,0.0922423974f,0.0857530013f,0.0812178031f,0.0766825974f,0.0721473992f,0.067612201f,0.0630770028f,0.059628401f,0.0561797991f,0.0527312011f,0.0492825992f,0.0458340012f,0.0430786014f,0.0403232016f,0.0375678018f,0.0348123983f,0.0320569985f,0.0300830007f,0.0281089991f,0.0261349995f,0.0241609998f,0.0221870001f,0.0208720006f,0.0195569992f,0.0182419997f,0.0169270001f,0.0156119997f,0.0147091998f,0.0138063999f,0.0129036f,0.0120008001f,0.0110980002f,0.0104630599f,0.00982811954f,0.00919318013f,0.00855823979f,0.00792330038f,0.00746926013f,0.00701521989f,0.00656118011f,0.00610713987f,0.00565310009f,0.00532326009f,0.00499342009f,0.0046635801f,0.0043337401f,0.0040039001f,0.00376818003f,0.00353245996f,0.00329673989f,0.00306102005f,0.00282529998f,0.00265917997f,0.00249305996f,0.00232693995f,0.00216081995f,0.00199469994f,0.00187564001f,0.00175657996f,0.00163752004f,0.00151845999f,0.00139939995f,0.00131347997f,0.00122755999f,0.00114164001f,0.00105572003f,0.000969799992f,0.000909533992f,0.000849267992f,0.000789001992f,0.000728735991f,0.000668469991f,0.000627057976f,0.000585646019f,0.000544234004f,0.000502821989f,0.000461410003f,0.000433273992f,0.000405138009f,0.000377001998f,0.000348865986f,0.000320730003f,0.000301730004f,0.000282730005f,0.000263730006f,0.000244730007f,0.000225729993f,0.000212529994f,0.000199329996f,0.000186129997f,0.000172929998f,0.00015973f,0.000150334003f,0.000140938006f,0.000131541994f,0.000122145997f,0.00011275f,0.000106102998f,9.94552029e-05f,9.28078007e-05f,8.61603985e-05f,7.95130036e-05f,7.48278035e-05f,7.01426034e-05f,6.54574033e-05f,6.07721995e-05f,5.60869994e-05f,5.27777993e-05f,4.94685992e-05f,4.61593991e-05f,4.2850199e-05f};
static const float REF_CIE1931_JuddVos_Y[400] = {0.000199999995f,0.000239112007f,0.000278224004f,0.000317336002f,0.000356447999f,0.000395559997f,0.000476448011f,0.000557336025f,0.00063822401f,0.000719111995f,0.00079999998f,0.000949139998f,0.00109827996f,0.00124741998f,0.00139655999f,0.00154570001f,0.00179656001f,0.00204742001f,0.0022982799f,0.00254914002f,0.0027999999f,0.00317123998f,0.00354248006f,0.00391372014f,0.00428496022f,0.00465619983f,0.00520495977f,0.00575372018f,0.00630248012f,0.00685124006f,0.0074f,0.00827580038f,0.0091516003f,0.0100274002f,0.0109032001f,0.0117790001f,0.0129231997f,0.0140674002f,0.0152115999f,0.0163557995f,0.0175000001f,0.0185355991f,0.0195712f,0.0206068009f,0.0216424f,0.0226780009f,0.0236024f,0.0245267991f,0.0254512001f,0.0263755992f,0.0273000002f,0.0283567999f,0.0294135995f,0.0304703992f,0.0315271989f,0.0325840004f,0.0336471982f,0.0347103998f,0.0357736014f,0.0368367992f,0.0379000008f,0.0387982018f,0.0396963991f,0.0405946001f,0.0414928012f,0.0423909985f,0.0432728007f,0.0441545993f,0.0450364016f,0.0459182002f,0.0467999987f,0.0478643999f,0.048928801f,0.0499931984f,0.0510575995f,0.0521220006f,0.053697601f,0.0552732013f,0.0568488017f,0.0584243983f,0.0599999987f,0.0625884011f,0.0651767999f,0.0677651986f,0.0703535974f,0.0729420036f,0.0765495971f,0.080157198f,0.0837647989f,0.0873723999f,0.0909800008f,0.0953520015f,0.0997240022f,0.104096003f,0.108468004f,0.112839997f,0.118075997f,0.123311996f,0.128547996f,0.133783996f,0.139019996f,0.145190001f,0.151360005f,0.157529995f,0.163699999f,0.169870004f,0.177499995f,0.18513f,0.192760006f,0.200389996f,0.208020002f,0.218032002f,0.228044003f,0.238056004f,0.248068005f,0.258080006f,0.271064013f,0.284047991f,0.297031999f,0.310016006f,0.323000014f,0.339480013f,0.355960011f,0.37244001f,0.388920009f,0.405400008f,0.424919993f,0.444440007f,0.463959992f,0.483480006f,0.503000021f,0.524021983f,0.545044005f,0.566066027f,0.587087989f,0.608110011f,0.628488004f,0.648865998f,0.669243991f,0.689621985f,0.709999979f,0.727020025f,0.744040012f,0.761059999f,0.778079987f,0.795099974f,0.808480024f,0.821860015f,0.835240006f,0.848619998f,0.861999989f,0.872609973f,0.883220017f,0.893830001f,0.904439986f,0.91505003f,0.922839999f,0.930630028f,0.938419998f,0.946210027f,0.953999996f,0.959208012f,0.964416027f,0.969623983f,0.974831998f,0.980040014f,0.983021975f,0.986003995f,0.988986015f,0.991967976f,0.994949996f,0.995980024f,0.997009993f,0.99804002f,0.999069989f,1.00010002f,0.999080002f,0.998059988f,0.997039974f,0.996020019f,0.995000005f,0.991750002f,0.988499999f,0.985249996f,0.981999993f,0.97874999f,0.973399997f,0.968050003f,0.962700009f,0.957350016f,0.952000022f,0.944715977f,0.937431991f,0.930148005f,0.92286402f,0.915579975f,0.906463981f,0.897347987f,0.888231993f,0.879115999f,0.870000005f,0.859246016f,0.848492026f,0.837737978f,0.826983988f,0.816229999f,0.804383993f,0.792537987f,0.780691981f,0.768845975f,0.757000029f,0.744566023f,0.732132018f,0.719698012f,0.707264006f,0.69483f,0.682063997f,0.669297993f,0.65653199f,0.643765986f,0.630999982f,0.618107975f,0.605216026f,0.592324018f,0.579432011f,0.566540003f,0.553831995f,0.541123986f,0.528415978f,0.515708029f,0.503000021f,0.490743995f,0.478487998f,0.466232002f,0.453976005f,0.441720009f,0.42957601f,0.41743201f,0.405288011f,0.393144011f,0.381000012f,0.368903995f,0.356808007f,0.344711989f,0.332616001f,0.320520014f,0.309415996f,0.298312008f,0.287207991f,0.276104003f,0.264999986f,0.255403996f,0.245808005f,0.236212f,0.226615995f,0.217020005f,0.208616003f,0.200212002f,0.191808f,0.183403999f,0.174999997f,0.167623997f,0.160247996f,0.152871996f,0.145495996f,0.138119996f,0.131896004f,0.125671998f,0.119447999f,0.113224f,0.107000001f,0.101930402f,0.0968608037f,0.0917911977f,0.0867215991f,0.0816520005f,0.0775215998f,0.0733911991f,0.0692607984f,0.0651303977f,0.0610000007f,0.0576654002f,0.0543307997f,0.0509961993f,0.0476615988f,0.0443269983f,0.0418616012f,0.0393962003f,0.0369307995f,0.0344653986f,0.0320000015f,0.0302907992f,0.0285816006f,0.0268724002f,0.0251631998f,0.0234539993f,0.0221631993f,0.0208723992f,0.0195815992f,0.0182907991f,0.0170000009f,0.0159744006f,0.0149488002f,0.0139231998f,0.0128976004f,0.0118720001f,0.0111395996f,0.0104072001f,0.00967479963f,0.00894240011f,0.00820999965f,0.0077224602f,0.00723491982f,0.0067473799f,0.00625983998f,0.00577230006f,0.00543823978f,0.00510417996f,0.00477012014f,0.00443605985f,0.00410200004f,0.0038674199f,0.00363284f,0.0033982601f,0.00316367997f,0.00292910007f,0.00276147993f,0.00259386003f,0.00242623989f,0.00225861999f,0.00209100009f,0.00196923991f,0.00184747996f,0.00172572001f,0.00160395994f,0.00148219999f,0.00139515998f,0.00130811997f,0.00122107996f,0.00113403995f,0.00104700006f,0.000985629973f,0.000924260006f,0.000862889981f,0.000801520015f,0.00074014999f,0.000696120027f,0.000652090006f,0.000608059985f,0.000564030022f,0.000520000001f,0.000488185993f,0.000456372014f,0.000424558006f,0.000392743998f,0.000360929989f,0.00033858401f,0.000316238002f,0.000293891993f,0.000271546014f,0.000249200006f,0.000233821993f,0.000218443995f,0.000203065996f,0.000187687998f,0.000172309999f,0.000161848002f,0.000151386004f,0.000140924007f,0.000130461995f,0.000119999997f,0.000112923997f,0.000105847997f,9.87719977e-05f,9.1695998e-05f,8.46199982e-05f,7.96960012e-05f,7.47719969e-05f,6.98479998e-05f,6.49240028e-05f,5.99999985e-05f,5.64891998e-05f,5.29784011e-05f,4.94675987e-05f,4.59568e-05f,4.24460013e-05f,3.99568016e-05f,3.74675983e-05f,3.49783986e-05f,3.24891989e-05f,2.99999992e-05f,2.82420006e-05f,2.6484e-05f,2.47259995e-05f,2.29680008e-05f,2.12100003e-05f,1.99658007e-05f,1.87215992e-05f,1.74773995e-05f,1.62331999e-05f};
static const float REF_CIE1931_JuddVos_Z[400] = {0.0122600002f,0.0146524003f,0.0170447994f,0.0194371995f,0.0218295995f,0.0242219996f,0.0292275995f,0.0342332013f,0.0392387994f,0.0442444012f,0.0492499992f,0.0584269986f,0.0676039979f,0.0767809972f,0.0859579965f,0.0951350033f,0.110926002f,0.126717001f,0.142508f,0.158298999f,0.174089998f,0.197298005f,0.220505998f,0.243714005f,0.266921997f,0.290129989f,0.324209988f,0.358289987f,0.392369986f,0.426450014f,0.460530013f,0.514756024f,0.568982005f,0.623207986f,0.677434027f,0.731660008f,0.798488021f,0.865315974f,0.932143986f,0.998971999f,1.06579995f,1.11556005f,1.16532004f,1.21508002f,1.26484001f,1.31459999f,1.34511995f,1.37564003f,1.40616f,1.43667996f,1.46720004f,1.48968005f,1.51215994f,1.53463995f,1.55711997f,1.57959998f,1.58700001f,1.59440005f,1.60179996f,1.6092f,1.61660004f,1.60692f,1.59723997f,1.58756006f,1.57788002f,1.56819999f,1.54890001f,1.52960002f,1.51030004f,1.49100006f,1.47169995f,1.45216f,1.43262005f,1.41307998f,1.39354002f,1.37399995f,1.35754001f,1.34107995f,1.32462001f,1.30815995f,1.29170001f,1.28048003f,1.26926005f,1.25803995f,1.24681997f,1.23559999f,1.21124005f,1.18687999f,1.16252005f,1.13815999f,1.11380005f,1.07948005f,1.04516006f,1.01084006f,0.976520002f,0.942200005f,0.90495199f,0.867703974f,0.830456018f,0.793208003f,0.755959988f,0.722047985f,0.688135982f,0.654223979f,0.620311975f,0.586399972f,0.558457971f,0.530516028f,0.502574027f,0.474631995f,0.446689993f,0.425583988f,0.404478014f,0.383372009f,0.362266004f,0.341159999f,0.325801998f,0.310443997f,0.295085996f,0.279727995f,0.264369994f,0.252683997f,0.240998f,0.229312003f,0.217626005f,0.205939993f,0.195641994f,0.185343996f,0.175045997f,0.164747998f,0.154449999f,0.145395994f,0.136342004f,0.127287999f,0.118234001f,0.109180003f,0.102660999f,0.0961420015f,0.0896229967f,0.0831039995f,0.0765850022f,0.0725134015f,0.0684418008f,0.0643702f,0.0602985993f,0.0562269986f,0.0532548018f,0.0502826013f,0.0473104008f,0.0443382002f,0.0413659997f,0.0389633998f,0.0365607999f,0.0341582f,0.0317556001f,0.0293530002f,0.0274908002f,0.0256286003f,0.0237664003f,0.0219042003f,0.0200420003f,0.0186960008f,0.0173499994f,0.0160039999f,0.0146580003f,0.0133119998f,0.0124060595f,0.0115001202f,0.0105941799f,0.00968823954f,0.00878230017f,0.00819730014f,0.00761230011f,0.00702730007f,0.00644230004f,0.00585730001f,0.00549570005f,0.00513410009f,0.00477250014f,0.00441090018f,0.00404930022f,0.00382377999f,0.00359825999f,0.00337274f,0.00314722001f,0.00292170001f,0.00279278005f,0.0026638601f,0.00253493991f,0.00240601995f,0.00227709999f,0.00221580011f,0.00215449999f,0.00209320011f,0.00203189999f,0.0019706001f,0.00193779997f,0.00190499995f,0.00187220005f,0.00183940004f,0.00180660002f,0.00175426004f,0.00170191994f,0.00164957996f,0.00159723999f,0.00154490001f,0.00148287998f,0.00142085995f,0.00135884003f,0.00129682f,0.00123479997f,0.00121138f,0.00118796004f,0.00116453995f,0.00114111998f,0.00111770001f,0.00107528805f,0.00103287597f,0.000990464003f,0.00094805198f,0.000905640016f,0.000863445981f,0.000821252004f,0.000779058028f,0.000736863993f,0.000694670016f,0.000641505991f,0.000588342024f,0.000535177998f,0.000482014002f,0.000428850006f,0.000406714011f,0.000384577987f,0.000362441991f,0.000340305996f,0.000318170001f,0.000305732014f,0.000293293997f,0.000280856009f,0.000268417993f,0.000255980005f,0.000236142005f,0.000216304004f,0.000196466004f,0.000176628004f,0.000156790004f,0.000144970996f,0.000133152003f,0.000121331999f,0.000109512999f,9.76939991e-05f,9.1943999e-05f,8.61939989e-05f,8.04439987e-05f,7.46939986e-05f,6.89439985e-05f,6.53882016e-05f,6.18323975e-05f,5.82766006e-05f,5.47208001e-05f,5.11649996e-05f,4.81351999e-05f,4.51054002e-05f,4.20756005e-05f,3.90458008e-05f,3.60160011e-05f,3.36603989e-05f,3.13048004e-05f,2.89492e-05f,2.65935996e-05f,2.42379992e-05f,2.27733999e-05f,2.13088006e-05f,1.98441994e-05f,1.83796001e-05f,1.69150007e-05f,1.59131996e-05f,1.49114003e-05f,1.39096001e-05f,1.29077998e-05f,1.19059996e-05f,1.11545996e-05f,1.04031997e-05f,9.65173967e-06f,8.9003197e-06f,8.14889972e-06f,7.63923981e-06f,7.1295799e-06f,6.61991999e-06f,6.11026007e-06f,5.60060016e-06f,5.2713599e-06f,4.94212009e-06f,4.61287982e-06f,4.28364001e-06f,3.9544002e-06f,3.72176009e-06f,3.48911999e-06f,3.25648011e-06f,3.02384001e-06f,2.7911999e-06f,2.61648006e-06f,2.44175999e-06f,2.26703992e-06f,2.09232007e-06f,1.9176e-06f,1.79678e-06f,1.67595999e-06f,1.55513999e-06f,1.43431998e-06f,1.31349998e-06f,1.23383995e-06f,1.15418004e-06f,1.07451001e-06f,9.9485203e-07f,9.15190014e-07f,8.61685976e-07f,8.08181994e-07f,7.54678013e-07f,7.01173974e-07f,6.47669992e-07f,6.10840004e-07f,5.74010016e-07f,5.37179972e-07f,5.00349984e-07f,4.63519996e-07f,4.37424006e-07f,4.11327989e-07f,3.85231999e-07f,3.5913601e-07f,3.33039992e-07f,3.14077994e-07f,2.95115996e-07f,2.76153997e-07f,2.57191999e-07f,2.38230001e-07f,2.24635997e-07f,2.11042007e-07f,1.97448003e-07f,1.83853999e-07f,1.70259995e-07f,1.60621994e-07f,1.50983993e-07f,1.41346007e-07f,1.31708006e-07f,1.22070006e-07f,1.15077e-07f,1.08084997e-07f,1.01091999e-07f,9.40995974e-08f,8.71069972e-08f,8.19766015e-08f,7.68461987e-08f,7.17158031e-08f,6.65854003e-08f,6.14549975e-08f,5.77963988e-08f,5.41378e-08f,5.04792013e-08f,4.6820599e-08f,4.31620002e-08f,4.06053999e-08f,3.80487997e-08f,3.54921994e-08f,3.29355991e-08f,3.03789989e-08f,2.86140001e-08f,2.68489995e-08f,2.50840007e-08f,2.33190001e-08f,2.15539995e-08f,2.03417994e-08f,1.91295992e-08f,1.79173991e-08f,1.67052008e-08f,1.54930007e-08f,1.46351997e-08f,1.37773997e-08f,1.29195996e-08f,1.20617996e-08f,1.12040004e-08f,1.05806999e-08f,9.9573203e-09f,9.33397981e-09f,8.71064021e-09f,8.08729972e-09f,7.63663976e-09f,7.18597981e-09f,6.73531986e-09f,6.2846599e-09f,5.83399995e-09f,5.50940005e-09f,5.18480014e-09f,4.8601998e-09f,4.5355999e-09f,4.21099999e-09f,3.97646005e-09f,3.74192011e-09f,3.50737994e-09f,3.27284e-09f};
static const float REF_CIE_D65[400] = {49.9754982f,50.4427605f,50.9100189f,51.3772812f,51.8445396f,52.3117981f,52.7790794f,53.2463608f,53.7136383f,54.1809196f,54.648201f,57.4588585f,60.2695198f,63.0801811f,65.8908386f,68.7014999f,71.5121765f,74.3228607f,77.1335373f,79.9442215f,82.7548981f,83.6279984f,84.5010986f,85.3741989f,86.2472992f,87.1203995f,87.9935226f,88.8666382f,89.7397614f,90.6128769f,91.4860001f,91.6805801f,91.8751602f,92.0697403f,92.2643204f,92.4589005f,92.6534805f,92.8480606f,93.0426407f,93.2372208f,93.4318008f,92.7568436f,92.0818787f,91.4069214f,90.7319565f,90.0569992f,89.3820572f,88.7071228f,88.0321808f,87.3572388f,86.6822968f,88.5005569f,90.3188171f,92.1370773f,93.9553375f,95.7735977f,97.5918808f,99.4101562f,101.228439f,103.046722f,104.864998f,106.079201f,107.293404f,108.507599f,109.721802f,110.935997f,112.150398f,113.364799f,114.579201f,115.793602f,117.008003f,117.088402f,117.1688f,117.249199f,117.329597f,117.410004f,117.490402f,117.570801f,117.651199f,117.731598f,117.811996f,117.5168f,117.221603f,116.926399f,116.631203f,116.335999f,116.041f,115.746002f,115.450996f,115.155998f,114.861f,114.967201f,115.073402f,115.179604f,115.285797f,115.391998f,115.498199f,115.604401f,115.710602f,115.816803f,115.922997f,115.2118f,114.500603f,113.789398f,113.078201f,112.366997f,111.6558f,110.944603f,110.233398f,109.522202f,108.810997f,108.865196f,108.919403f,108.973602f,109.027802f,109.082001f,109.136398f,109.190804f,109.245201f,109.299599f,109.353996f,109.198799f,109.043602f,108.888397f,108.7332f,108.578003f,108.422798f,108.267601f,108.112396f,107.957199f,107.802002f,107.500801f,107.1996f,106.898399f,106.597198f,106.295998f,105.994797f,105.693604f,105.392403f,105.091202f,104.790001f,105.079803f,105.369598f,105.659401f,105.949203f,106.238998f,106.528999f,106.819f,107.109001f,107.399002f,107.689003f,107.360603f,107.032204f,106.703796f,106.375397f,106.046997f,105.718597f,105.390198f,105.061798f,104.733398f,104.404999f,104.369003f,104.333f,104.296997f,104.261002f,104.224998f,104.189201f,104.153397f,104.117599f,104.081802f,104.045998f,103.641403f,103.236801f,102.832199f,102.427597f,102.023003f,101.618401f,101.213799f,100.809196f,100.404602f,100.f,99.6334229f,99.2668381f,98.9002609f,98.5336838f,98.167099f,97.8005219f,97.4339371f,97.0673599f,96.7007828f,96.334198f,96.2795792f,96.2249603f,96.1703415f,96.1157227f,96.0610962f,96.0064774f,95.9518585f,95.8972397f,95.8426208f,95.788002f,95.0777588f,94.3675232f,93.65728f,92.9470367f,92.2368011f,91.5265579f,90.8163223f,90.1060791f,89.3958435f,88.6856003f,88.8176575f,88.9497223f,89.0817795f,89.2138367f,89.3459015f,89.4779587f,89.6100235f,89.7420807f,89.8741379f,90.0062027f,89.965477f,89.9247589f,89.8840408f,89.8433228f,89.802597f,89.7619019f,89.721199f,89.6804962f,89.639801f,89.5990982f,89.4090576f,89.219017f,89.0289764f,88.8389435f,88.6489029f,88.4588623f,88.2688217f,88.0787811f,87.8887405f,87.6987f,87.2576828f,86.816658f,86.3756409f,85.9346237f,85.4935989f,85.052597f,84.6116028f,84.1706009f,83.729599f,83.2885971f,83.3296585f,83.3707199f,83.4117813f,83.4528427f,83.4938965f,83.5349579f,83.5760193f,83.6170807f,83.6581421f,83.6992035f,83.3319626f,82.9647217f,82.5974808f,82.2302399f,81.862999f,81.4957581f,81.1285172f,80.7612762f,80.394043f,80.0268021f,80.045578f,80.0643616f,80.0831375f,80.1019211f,80.120697f,80.1394806f,80.1582565f,80.1770401f,80.1958237f,80.2145996f,80.4209213f,80.627243f,80.8335571f,81.0398788f,81.2462006f,81.4525223f,81.6588364f,81.8651581f,82.0714798f,82.2778015f,81.8784409f,81.4790802f,81.0797195f,80.6803589f,80.2809982f,79.8816376f,79.4822769f,79.0829163f,78.6835632f,78.2842026f,77.4279022f,76.5716019f,75.7153015f,74.8590012f,74.0027008f,73.1464233f,72.2901382f,71.4338608f,70.5775833f,69.7212982f,69.91008f,70.0988617f,70.2876434f,70.4764175f,70.6651993f,70.853981f,71.0427628f,71.2315369f,71.4203186f,71.6091003f,71.8830795f,72.1570587f,72.4310379f,72.7050171f,72.9789963f,73.2529984f,73.5270004f,73.8010025f,74.0749969f,74.348999f,73.074501f,71.8000031f,70.5254974f,69.2509995f,67.9765015f,66.7020035f,65.4274979f,64.1529999f,62.8785019f,61.6040001f,62.4321594f,63.2603188f,64.0884781f,64.9166412f,65.7447968f,66.5729599f,67.401123f,68.2292786f,69.0574417f,69.8855972f,70.4057388f,70.9258804f,71.446022f,71.9661636f,72.4862976f,73.0064392f,73.5265808f,74.0467224f,74.5668564f,75.086998f,73.937561f,72.7881165f,71.6386795f,70.4892426f,69.339798f,68.1903763f,67.0409622f,65.8915405f,64.7421188f,63.592701f,61.8752403f,60.1577797f,58.4403191f,56.7228584f,55.0054016f,53.2879601f,51.5705185f,49.8530807f,48.1356392f,46.4182014f,48.4569206f,50.4956398f,52.534359f,54.5730782f,56.6118011f,58.6505203f,60.6892395f,62.7279587f,64.7666779f,66.805397f,66.4631424f,66.1208801f,65.7786179f,65.4363632f,65.094101f,64.7518387f,64.4095764f,64.0673218f,63.7250595f};
static const float REF_CES01[400] = {0.61947f,0.620289981f,0.621110022f,0.621930003f,0.622749984f,0.623570025f,0.624390006f,0.625209987f,0.626020014f,0.626839995f,0.627659976f,0.628470004f,0.629279971f,0.630100012f,0.630909979f,0.631720006f,0.632529974f,0.633340001f,0.634150028f,0.634959996f,0.635900021f,0.636500001f,0.63726002f,0.638140023f,0.639110029f,0.640150011f,0.641229987f,0.642329991f,0.643400013f,0.644439995f,0.645399988f,0.646269977f,0.647040009f,0.647729993f,0.648339987f,0.648880005f,0.649349988f,0.649760008f,0.650110006f,0.650430024f,0.650699973f,0.650940001f,0.651139975f,0.651300013f,0.651409984f,0.651470006f,0.651470006f,0.651409984f,0.651279986f,0.651080012f,0.65079999f,0.650439978f,0.649999976f,0.649479985f,0.648890018f,0.648230016f,0.647509992f,0.646719992f,0.64586997f,0.644959986f,0.643999994f,0.642989993f,0.641910017f,0.640770018f,0.639549971f,0.638249993f,0.636849999f,0.635339975f,0.633719981f,0.631980002f,0.630100012f,0.628090024f,0.625949979f,0.623709977f,0.621370018f,0.618950009f,0.616479993f,0.613960028f,0.611410022f,0.608850002f,0.606299996f,0.603760004f,0.601230025f,0.598710001f,0.596170008f,0.593609989f,0.591030002f,0.58841002f,0.585730016f,0.583000004f,0.580200016f,0.577329993f,0.574389994f,0.571430027f,0.568449974f,0.565479994f,0.562529981f,0.55963999f,0.556829989f,0.554099977f,0.551500022f,0.549030006f,0.54667002f,0.544420004f,0.542259991f,0.54016f,0.538100004f,0.536080003f,0.534070015f,0.532050014f,0.529999971f,0.527920008f,0.52579999f,0.523670018f,0.521539986f,0.519420028f,0.517329991f,0.515280008f,0.513279974f,0.511349976f,0.509500027f,0.507749975f,0.506089985f,0.504509985f,0.503030002f,0.501630008f,0.500320017f,0.499080002f,0.497909993f,0.496820003f,0.495799989f,0.49485001f,0.493959993f,0.493140012f,0.492390007f,0.491710007f,0.491100013f,0.490570009f,0.490099996f,0.489710003f,0.489399999f,0.489160001f,0.488990009f,0.488889992f,0.488840014f,0.488840014f,0.488889992f,0.488970011f,0.489089996f,0.489239991f,0.489399999f,0.489580005f,0.489789993f,0.490029991f,0.490319997f,0.490680009f,0.491109997f,0.491620004f,0.492229998f,0.492960006f,0.493800014f,0.494780004f,0.495889992f,0.497150004f,0.498549998f,0.500109971f,0.501820028f,0.503690004f,0.505720019f,0.507920027f,0.510299981f,0.512849987f,0.515579998f,0.51849997f,0.521600008f,0.524879992f,0.528360009f,0.532019973f,0.535880029f,0.53994f,0.544200003f,0.54865998f,0.553309977f,0.55813998f,0.563149989f,0.568319976f,0.573639989f,0.579110026f,0.584720016f,0.590449989f,0.596300006f,0.60224998f,0.608299971f,0.614409983f,0.620580018f,0.626789987f,0.633019984f,0.639259994f,0.645470023f,0.651660025f,0.657800019f,0.663879991f,0.669879973f,0.675809979f,0.681659997f,0.687430024f,0.693120003f,0.698710024f,0.704209983f,0.709599972f,0.714900017f,0.720089972f,0.725170016f,0.730139971f,0.734990001f,0.739740014f,0.74436003f,0.748880029f,0.75326997f,0.757550001f,0.761699975f,0.765730023f,0.769649982f,0.773450017f,0.777140021f,0.780719995f,0.784210026f,0.787590027f,0.790880024f,0.794080019f,0.797200024f,0.800230026f,0.803189993f,0.806060016f,0.80884999f,0.811559975f,0.81418997f,0.816730022f,0.819199979f,0.821590006f,0.823899984f,0.826129973f,0.828279972f,0.830349982f,0.832350016f,0.83427f,0.836120009f,0.837899983f,0.839600027f,0.841239989f,0.842800021f,0.844299972f,0.845730007f,0.847109973f,0.848429978f,0.849709988f,0.850950003f,0.852150023f,0.853320003f,0.854470015f,0.855599999f,0.856710017f,0.85781002f,0.858889997f,0.859950006f,0.860979974f,0.861989975f,0.862969995f,0.863910019f,0.864830017f,0.865700006f,0.866540015f,0.867340028f,0.868099988f,0.868839979f,0.86954999f,0.870230019f,0.870899975f,0.87154001f,0.872179985f,0.872799993f,0.873409986f,0.87401998f,0.87462002f,0.875199974f,0.875779986f,0.876349986f,0.876909971f,0.877449989f,0.877979994f,0.878499985f,0.879010022f,0.879499972f,0.879989982f,0.880460024f,0.88094002f,0.881410003f,0.881879985f,0.882350028f,0.88282001f,0.883300006f,0.883790016f,0.884280026f,0.88477999f,0.885280013f,0.88578999f,0.886309981f,0.886829972f,0.887350023f,0.887870014f,0.888400018f,0.888930023f,0.889450014f,0.889959991f,0.890450001f,0.890910029f,0.891349971f,0.891740024f,0.892080009f,0.892369986f,0.8926f,0.892960012f,0.893270016f,0.893580019f,0.893890023f,0.894200027f,0.894509971f,0.894810021f,0.895120025f,0.895420015f,0.895730019f,0.896030009f,0.896329999f,0.896629989f,0.896929979f,0.897230029f,0.897530019f,0.897830009f,0.89813f,0.89842999f,0.898720026f,0.899020016f,0.899309993f,0.899609983f,0.899900019f,0.900189996f,0.900479972f,0.900770009f,0.901059985f,0.901350021f,0.901639998f,0.901929975f,0.902220011f,0.902499974f,0.90279001f,0.903069973f,0.903360009f,0.903639972f,0.903919995f,0.904200017f,0.904489994f,0.904770017f,0.90504998f,0.905319989f,0.905600011f,0.905879974f,0.906159997f,0.906430006f,0.906710029f,0.906979978f,0.907260001f,0.90753001f,0.907800019f,0.908070028f,0.908339977f,0.908609986f,0.908879995f,0.909150004f,0.909420013f,0.909690022f,0.909950018f,0.910220027f,0.910480022f,0.910749972f,0.911010027f,0.911279976f,0.911539972f,0.911800027f,0.912060022f,0.912320018f,0.912580013f,0.912840009f,0.913100004f,0.913349986f,0.913609982f,0.913869977f,0.914120018f,0.914380014f,0.914629996f,0.914879978f};
static const float REF_CES02[400] = {0.251729995f,0.252209991f,0.252689987f,0.253170013f,0.25365001f,0.254130006f,0.254610002f,0.255100012f,0.255580008f,0.256060004f,0.256550014f,0.25703001f,0.25751999f,0.257999986f,0.258489996f,0.258980006f,0.259469986f,0.259959996f,0.260439992f,0.260930002f,0.261500001f,0.261869997f,0.262340009f,0.262870014f,0.26346001f,0.264090002f,0.264719993f,0.265350014f,0.265949994f,0.26651001f,0.26699999f,0.26741001f,0.267740011f,0.26800999f,0.26820001f,0.268339992f,0.268429995f,0.268469989f,0.268480003f,0.268449992f,0.268400013f,0.268330008f,0.268240005f,0.268119991f,0.267969996f,0.26778999f,0.267580003f,0.267329991f,0.267030001f,0.266689986f,0.266299993f,0.265859991f,0.265359998f,0.264800012f,0.264180005f,0.263489991f,0.262739986f,0.261920005f,0.261020005f,0.260049999f,0.259000003f,0.257869989f,0.256650001f,0.25534001f,0.253930002f,0.252409995f,0.25079f,0.249050006f,0.247199997f,0.245210007f,0.243100002f,0.240850002f,0.23849f,0.236019999f,0.233469993f,0.230859995f,0.228210002f,0.22552f,0.222829998f,0.220149994f,0.217500001f,0.214890003f,0.21232f,0.209769994f,0.20724f,0.204710007f,0.202179998f,0.199630007f,0.197060004f,0.194450006f,0.191799998f,0.189099997f,0.186360002f,0.183599994f,0.180849999f,0.178130001f,0.175449997f,0.172830001f,0.170310006f,0.167889997f,0.165600002f,0.163450003f,0.16144f,0.159529999f,0.157729998f,0.156020001f,0.154359996f,0.152759999f,0.151199996f,0.149649993f,0.148100004f,0.146540001f,0.14497f,0.143399999f,0.141829997f,0.140259996f,0.138710007f,0.137170002f,0.135649994f,0.134159997f,0.132699996f,0.131280005f,0.129889995f,0.128560007f,0.127269998f,0.126039997f,0.124870002f,0.123769999f,0.12274f,0.121780001f,0.120899998f,0.120099999f,0.119390003f,0.118749999f,0.118179999f,0.117689997f,0.117250003f,0.11688f,0.116570003f,0.11631f,0.116099998f,0.115939997f,0.115809999f,0.115730003f,0.11569f,0.11569f,0.115709998f,0.115769997f,0.115850002f,0.115970001f,0.116099998f,0.11626f,0.116429999f,0.116630003f,0.116850004f,0.1171f,0.117370002f,0.117660001f,0.117980003f,0.118330002f,0.118699998f,0.119099997f,0.119539998f,0.120020002f,0.120549999f,0.121140003f,0.121789999f,0.12252f,0.123319998f,0.12421f,0.125200003f,0.126289994f,0.127489999f,0.128830001f,0.130319998f,0.131980002f,0.133809999f,0.135849997f,0.138099998f,0.14057f,0.143299997f,0.146290004f,0.149540007f,0.153060004f,0.156849995f,0.160919994f,0.165270001f,0.169890001f,0.174810007f,0.180010006f,0.185499996f,0.191280007f,0.197349995f,0.203669995f,0.210250005f,0.217069998f,0.224110007f,0.231360003f,0.238800004f,0.246419996f,0.254200011f,0.262129992f,0.270200014f,0.27838999f,0.286680013f,0.295049995f,0.303490013f,0.311980009f,0.32051f,0.329050004f,0.337599993f,0.346130013f,0.354640007f,0.36311999f,0.37154001f,0.379909992f,0.388209999f,0.396429986f,0.40456f,0.412580013f,0.42050001f,0.428290009f,0.435970008f,0.44352001f,0.45096001f,0.458279997f,0.46548f,0.472570002f,0.479559988f,0.486429989f,0.493200004f,0.499859989f,0.506410003f,0.512839973f,0.519150019f,0.525330007f,0.531359971f,0.537259996f,0.542999983f,0.548579991f,0.55400002f,0.559249997f,0.564339995f,0.569270015f,0.574069977f,0.578719974f,0.583249986f,0.587670028f,0.591970026f,0.596180022f,0.600300014f,0.604340017f,0.608290017f,0.612160027f,0.615939975f,0.619629979f,0.623239994f,0.626749992f,0.630159974f,0.633480012f,0.636699975f,0.63981998f,0.642849982f,0.645799994f,0.648679972f,0.65151f,0.654280007f,0.657019973f,0.659720004f,0.662419975f,0.665099978f,0.667789996f,0.670469999f,0.673160017f,0.675830007f,0.678499997f,0.681159973f,0.683799982f,0.686420023f,0.689019978f,0.691600025f,0.694149971f,0.696680009f,0.699199975f,0.701709986f,0.704219997f,0.706749976f,0.709290028f,0.711860001f,0.714460015f,0.717100024f,0.719780028f,0.722490013f,0.725199997f,0.727880001f,0.730499983f,0.733060002f,0.735509992f,0.737829983f,0.74000001f,0.741999984f,0.743809998f,0.74545002f,0.746959984f,0.748390019f,0.749759972f,0.751110017f,0.752489984f,0.753920019f,0.755439997f,0.757099986f,0.75891f,0.760839999f,0.762839973f,0.76485002f,0.766839981f,0.768750012f,0.770529985f,0.772130013f,0.773500025f,0.774600029f,0.776279986f,0.777719975f,0.779160023f,0.780589998f,0.782010019f,0.78342998f,0.784839988f,0.786239982f,0.787639976f,0.789030015f,0.790409982f,0.791779995f,0.793150008f,0.79452002f,0.795870006f,0.797219992f,0.798569977f,0.799899995f,0.801230013f,0.802559972f,0.803870022f,0.805180013f,0.80647999f,0.807780027f,0.809069991f,0.810350001f,0.811630011f,0.812900007f,0.814159989f,0.815419972f,0.816670001f,0.817910016f,0.819149971f,0.820379972f,0.821609974f,0.822820008f,0.824029982f,0.825240016f,0.826439977f,0.827629983f,0.828809977f,0.829990029f,0.831160009f,0.832329988f,0.833490014f,0.834640026f,0.835789979f,0.836929977f,0.838060021f,0.839190006f,0.840309978f,0.841419995f,0.842530012f,0.843630016f,0.84473002f,0.84582001f,0.846899986f,0.847980022f,0.849049985f,0.850109994f,0.851170003f,0.852219999f,0.853269994f,0.854309976f,0.855340004f,0.856369972f,0.857389987f,0.858399987f,0.859409988f,0.860419989f,0.861410022f,0.862399995f,0.863390028f,0.864369988f,0.865339994f,0.86631f,0.867269993f,0.868229985f,0.869180024f};
static const float REF_CES03[400] = {7.99999998e-06f,0.000640999991f,0.00197999994f,0.00384799996f,0.00560500007f,0.00663000019f,0.00800000038f,0.00946700014f,0.0117309997f,0.0144990003f,0.0169370007f,0.0190389995f,0.0201510005f,0.0199219994f,0.0186720006f,0.0177289993f,0.0175240003f,0.0167689994f,0.0157110002f,0.0139730005f,0.011674f,0.00964900013f,0.00811100006f,0.00681800023f,0.00572599983f,0.00510900002f,0.00435000006f,0.00357399997f,0.00314699998f,0.00335899997f,0.00378499995f,0.00442400016f,0.00529300002f,0.00627199979f,0.00736800022f,0.00873699971f,0.0102930004f,0.0120350001f,0.0141439997f,0.0165320002f,0.0188829992f,0.0212459993f,0.0235959999f,0.0256309994f,0.0274170004f,0.0297200009f,0.0324649997f,0.0352040008f,0.0377379991f,0.0401500016f,0.0419880003f,0.0431890003f,0.044156f,0.0455240011f,0.0472109988f,0.0489640012f,0.0504099987f,0.0517500006f,0.0528549999f,0.0537919998f,0.0545659997f,0.0554450005f,0.0564399995f,0.0570829995f,0.0570699982f,0.0567420013f,0.0562050007f,0.055546999f,0.0549370013f,0.0544129983f,0.0540999994f,0.0539020002f,0.0537739992f,0.0537649989f,0.0542029999f,0.0548710003f,0.0556639992f,0.0566789992f,0.0576490015f,0.0584129989f,0.0590809993f,0.0596490018f,0.0600260012f,0.0603410006f,0.0605489984f,0.0607520007f,0.0610320009f,0.0613109991f,0.0616450012f,0.0621789992f,0.0625919998f,0.0629580021f,0.0631859973f,0.0632700026f,0.0631299987f,0.0630439967f,0.0627750009f,0.0623290017f,0.0619259998f,0.0614410006f,0.0606870018f,0.0601509996f,0.0597259998f,0.0595339984f,0.0594879985f,0.0596689992f,0.0597990006f,0.0599460006f,0.0598700009f,0.0596910007f,0.0594389997f,0.058867f,0.0580729991f,0.0573510006f,0.056628f,0.0560079999f,0.0557060018f,0.055466f,0.0550299995f,0.0545209982f,0.0539189987f,0.0531800017f,0.052790001f,0.0525490008f,0.0523829982f,0.0520210005f,0.0514810011f,0.0506879985f,0.0499590002f,0.049341999f,0.0489480011f,0.0486809984f,0.0484669991f,0.0482079983f,0.0479849987f,0.0476239994f,0.0473820008f,0.0472609997f,0.0470909998f,0.0467760004f,0.0464709997f,0.0461179987f,0.0456960015f,0.0451870002f,0.0446459986f,0.0439760014f,0.043331001f,0.0426420011f,0.0419880003f,0.0414399989f,0.0410239995f,0.0406289995f,0.0404100008f,0.0403259993f,0.0403469987f,0.0404639989f,0.0408260003f,0.0411579981f,0.0415089987f,0.0417070016f,0.0418680012f,0.0419239998f,0.041974999f,0.0418049991f,0.0418029986f,0.0419720002f,0.042084001f,0.041974999f,0.0418829992f,0.0416020006f,0.0412340015f,0.0408859998f,0.0407410003f,0.0408900008f,0.0413959995f,0.0418489985f,0.0421970002f,0.0424959995f,0.0426709987f,0.0427180007f,0.0430510007f,0.0435630009f,0.0440349989f,0.0445289984f,0.0448400006f,0.0448370017f,0.0446150005f,0.0444439985f,0.0441620015f,0.0441039987f,0.0442939997f,0.044551f,0.0448790006f,0.0454629995f,0.045961f,0.0463149995f,0.0466989987f,0.0471250005f,0.0475950018f,0.048351001f,0.049141001f,0.0499349982f,0.0507039987f,0.0511660017f,0.0513219982f,0.0515099987f,0.0518050008f,0.0520079993f,0.0524460003f,0.0528020002f,0.0530520007f,0.0532019995f,0.0534420013f,0.0536370017f,0.0541380011f,0.0546320006f,0.0552100018f,0.0558359995f,0.0567510016f,0.0575760007f,0.0586280003f,0.0597889982f,0.0612820014f,0.0627930015f,0.0643739998f,0.0660350025f,0.067685999f,0.0692259967f,0.0707200021f,0.072333999f,0.0742679983f,0.0765009969f,0.078768f,0.0809200034f,0.0830959976f,0.0851629972f,0.0872220024f,0.0896219984f,0.0922940001f,0.0951019973f,0.097902f,0.100340001f,0.102349997f,0.104610004f,0.107019998f,0.109279998f,0.111989997f,0.114759997f,0.117119998f,0.118960001f,0.120640002f,0.122029997f,0.123520002f,0.125019997f,0.126389995f,0.127489999f,0.128649995f,0.129480004f,0.130400002f,0.131630003f,0.133220002f,0.134749994f,0.136319995f,0.13775f,0.139259994f,0.140939996f,0.14294f,0.145140007f,0.147239998f,0.148849994f,0.150030002f,0.151240006f,0.152319998f,0.153510004f,0.155000001f,0.156560004f,0.157590002f,0.158539996f,0.159529999f,0.160630003f,0.162070006f,0.163849995f,0.165439993f,0.167209998f,0.169080004f,0.170949996f,0.172769994f,0.175019994f,0.176929995f,0.178479999f,0.180040002f,0.181510001f,0.182909995f,0.184389994f,0.185699999f,0.186639994f,0.187150002f,0.187270001f,0.186890006f,0.186660007f,0.186110005f,0.185489997f,0.185230002f,0.185169995f,0.185460001f,0.186499998f,0.188170001f,0.189730003f,0.191670001f,0.193570003f,0.195289999f,0.197300002f,0.199359998f,0.200969994f,0.202329993f,0.202099994f,0.202700004f,0.203930005f,0.203930005f,0.203930005f,0.203930005f,0.208279997f,0.209519997f,0.210769996f,0.212019995f,0.213280007f,0.214550003f,0.21582f,0.217089996f,0.218370005f,0.219659999f,0.220950007f,0.22225f,0.223550007f,0.224849999f,0.226170003f,0.227489993f,0.228809997f,0.230140001f,0.231470004f,0.232810006f,0.234160006f,0.235510007f,0.236870006f,0.238230005f,0.239590004f,0.240970001f,0.242339998f,0.243729994f,0.245110005f,0.246509999f,0.247909993f,0.249310002f,0.250719994f,0.252139986f,0.253560007f,0.254979998f,0.256410003f,0.257849991f,0.25929001f,0.260729998f,0.262190014f,0.263639987f,0.265100002f,0.266570002f,0.268040001f,0.269520015f,0.270999998f,0.272489995f,0.273979992f,0.275480002f,0.276980013f,0.278490007f,0.280010015f,0.281520009f,0.283050001f,0.284570009f,0.286110014f,0.287640005f,0.289189994f,0.290740013f,0.292290002f,0.293839991f,0.295410007f,0.29697001f,0.29855001f,0.300119996f,0.301699996f,0.303290009f,0.304879993f,0.30647999f,0.308079988f,0.309680015f,0.311289996f,0.312900007f,0.314520001f,0.316139996f,0.317770004f,0.319400012f,0.321040004f};
static const float REF_CES04[400] = {0.473760009f,0.477183014f,0.478810012f,0.47893399f,0.478504002f,0.477930993f,0.47627601f,0.473906994f,0.470999986f,0.467750996f,0.464058995f,0.459960997f,0.45531401f,0.450428993f,0.445506006f,0.441015989f,0.436857015f,0.432850987f,0.428936005f,0.425136f,0.42156601f,0.418563992f,0.415470004f,0.412247986f,0.408937007f,0.405589998f,0.402244985f,0.398945987f,0.395729989f,0.392583013f,0.389495999f,0.386510998f,0.383637995f,0.380829006f,0.378145993f,0.375665009f,0.373356014f,0.371152997f,0.369062006f,0.367027014f,0.365006f,0.36303401f,0.361126989f,0.359286994f,0.357609004f,0.35610801f,0.354692996f,0.353332996f,0.352037996f,0.350730002f,0.349357992f,0.347941995f,0.346500009f,0.345023006f,0.343519986f,0.342000008f,0.340440005f,0.338849992f,0.337233007f,0.335563987f,0.333824009f,0.332017004f,0.330128014f,0.328157991f,0.326139987f,0.324106008f,0.322043985f,0.319922f,0.317701012f,0.315344989f,0.312822014f,0.310133994f,0.307316989f,0.30439201f,0.301351011f,0.298162013f,0.29479599f,0.291244f,0.287532985f,0.283708006f,0.279821008f,0.275934994f,0.272074997f,0.268213987f,0.26433f,0.260421008f,0.256480008f,0.252517998f,0.248568997f,0.244652003f,0.240780994f,0.236962005f,0.233182997f,0.229433f,0.225722998f,0.222057f,0.218438998f,0.214886993f,0.211401001f,0.207975999f,0.204616994f,0.201324001f,0.198092997f,0.194934994f,0.191851005f,0.188837007f,0.185895994f,0.183028996f,0.180233002f,0.177516997f,0.174885005f,0.172343001f,0.169907004f,0.167590007f,0.165405005f,0.163365006f,0.161482006f,0.159759f,0.158203006f,0.156816006f,0.155599996f,0.154553995f,0.153674006f,0.152945995f,0.152356997f,0.151895002f,0.151556f,0.151335001f,0.151241004f,0.151272997f,0.151434004f,0.151720002f,0.152129993f,0.152661994f,0.153322995f,0.154119998f,0.155063003f,0.156156003f,0.157403007f,0.158803001f,0.160363004f,0.162085995f,0.163980007f,0.166051999f,0.168308005f,0.170750007f,0.173383996f,0.176209003f,0.179226995f,0.182445005f,0.185857996f,0.189456999f,0.193241999f,0.1972f,0.201315001f,0.205585003f,0.210003003f,0.214553997f,0.219230995f,0.224023998f,0.228918001f,0.233906999f,0.238994002f,0.244167f,0.249424994f,0.254772007f,0.260203987f,0.265718013f,0.271317005f,0.276989013f,0.282721013f,0.288507015f,0.294333011f,0.300190002f,0.306084991f,0.312023014f,0.317995995f,0.323994011f,0.330006987f,0.336012989f,0.342002988f,0.347965002f,0.353875995f,0.359717995f,0.365485013f,0.371163011f,0.376733989f,0.382192999f,0.387537986f,0.392749995f,0.397823006f,0.402754009f,0.407546014f,0.412214994f,0.416779011f,0.421225995f,0.42554f,0.429720998f,0.433757007f,0.437633008f,0.44136101f,0.444956005f,0.448415011f,0.451736003f,0.454917997f,0.457955003f,0.46084699f,0.463604987f,0.466221988f,0.468701005f,0.471051991f,0.473280013f,0.47538501f,0.477382004f,0.479277998f,0.481065989f,0.482744008f,0.484313011f,0.485774994f,0.487138987f,0.48842001f,0.489630014f,0.490765989f,0.491845012f,0.492879987f,0.493864f,0.494796991f,0.495698005f,0.496569008f,0.497411996f,0.498243988f,0.499074996f,0.499900997f,0.500729978f,0.501532018f,0.50229001f,0.503010988f,0.503711998f,0.504383028f,0.505033016f,0.505666018f,0.506265998f,0.50681299f,0.507309973f,0.507763982f,0.508194029f,0.508608997f,0.509016991f,0.509405971f,0.509769022f,0.51008898f,0.510375023f,0.510639012f,0.510896981f,0.511155009f,0.511424005f,0.511686981f,0.511936009f,0.51216799f,0.512390018f,0.512616992f,0.512870014f,0.513140976f,0.513432026f,0.51372999f,0.514023006f,0.514293015f,0.514550984f,0.514792025f,0.515016973f,0.515218973f,0.515393972f,0.515528023f,0.515617013f,0.515658021f,0.515662014f,0.515634f,0.515581012f,0.515501976f,0.515399992f,0.515266001f,0.515088975f,0.514860988f,0.514609993f,0.514353991f,0.514104009f,0.513877988f,0.513688028f,0.513511002f,0.513351023f,0.513221979f,0.51315099f,0.513144016f,0.513200998f,0.513300002f,0.513426006f,0.513472021f,0.513449013f,0.513422012f,0.513397992f,0.513368011f,0.513379991f,0.513357997f,0.513302028f,0.513216972f,0.513113976f,0.513005018f,0.512907982f,0.512814999f,0.512718976f,0.512615025f,0.512504995f,0.512386978f,0.512273014f,0.51217097f,0.512081981f,0.512008011f,0.511955023f,0.511919022f,0.511901975f,0.511913002f,0.511964977f,0.512084007f,0.512287974f,0.512567997f,0.512910008f,0.513293028f,0.513684988f,0.514066994f,0.514454007f,0.51485002f,0.515250981f,0.515648007f,0.516023993f,0.516360998f,0.516665995f,0.516937971f,0.517270029f,0.517666996f,0.518073022f,0.51848799f,0.518912017f,0.51928699f,0.519661009f,0.520035982f,0.520410001f,0.520784974f,0.521158993f,0.521534026f,0.521907985f,0.522282004f,0.522656977f,0.523030996f,0.523405015f,0.523779988f,0.524154007f,0.524528027f,0.524901986f,0.525276005f,0.525650024f,0.526023984f,0.526398003f,0.526772022f,0.527145982f,0.527520001f,0.52789402f,0.52826798f,0.528641999f,0.529016018f,0.529389977f,0.529762983f,0.530137002f,0.530511022f,0.530884027f,0.531257987f,0.531632006f,0.532005012f,0.532378972f,0.532751977f,0.533125997f,0.533499002f,0.533873022f,0.534246027f,0.534619987f,0.534992993f,0.535367012f,0.535740018f,0.536113024f,0.536486983f,0.536859989f,0.537232995f,0.537606001f,0.537979007f,0.538352013f,0.538725019f,0.539098024f,0.539470971f,0.539843976f,0.540216029f,0.540589988f};
static const float REF_CES05[400] = {0.133509994f,0.134069994f,0.134529993f,0.134900004f,0.135189995f,0.135399997f,0.135539994f,0.135629997f,0.135670006f,0.135680005f,0.135649994f,0.135600001f,0.135550007f,0.13549f,0.135440007f,0.135399997f,0.135389999f,0.135419995f,0.13549f,0.135609999f,0.135790005f,0.136040002f,0.136350006f,0.136720002f,0.137119994f,0.137569994f,0.138040006f,0.138530001f,0.139019996f,0.139520004f,0.140009999f,0.140479997f,0.140919998f,0.141320005f,0.141670004f,0.141949996f,0.14215f,0.14226f,0.142269999f,0.142169997f,0.141939998f,0.141570002f,0.141080007f,0.140459999f,0.139719993f,0.138870001f,0.137930006f,0.136889994f,0.135759994f,0.134550005f,0.133269995f,0.131919995f,0.130520001f,0.129050002f,0.127529994f,0.125949994f,0.124329999f,0.122660004f,0.12094f,0.119180001f,0.117380001f,0.115549996f,0.113679998f,0.111790001f,0.109870002f,0.107940003f,0.105999999f,0.104039997f,0.102090001f,0.100139998f,0.0981900021f,0.0962539986f,0.0943320021f,0.0924270004f,0.0905409977f,0.0886769965f,0.0868379995f,0.0850249976f,0.0832429975f,0.0814940035f,0.0797799975f,0.0781039968f,0.0764679983f,0.0748739988f,0.0733250007f,0.0718230009f,0.0703679994f,0.0689650029f,0.0676139966f,0.0663190037f,0.065080002f,0.0639000013f,0.0627790019f,0.0617149994f,0.0607100017f,0.059762001f,0.0588699989f,0.0580339991f,0.0572540015f,0.0565299988f,0.0558600016f,0.0552439988f,0.0546769984f,0.0541560017f,0.0536749996f,0.0532310009f,0.0528189987f,0.0524340011f,0.0520730019f,0.0517290011f,0.0513999984f,0.0510810018f,0.0507720001f,0.0504730009f,0.0501849987f,0.0499069989f,0.0496399999f,0.049385f,0.049141001f,0.0489099994f,0.0486899987f,0.0484829992f,0.0482919998f,0.048117999f,0.0479639992f,0.0478340015f,0.0477279983f,0.0476499982f,0.047603f,0.0475890003f,0.0476099998f,0.0476690009f,0.0477680005f,0.0479060002f,0.0480870008f,0.0483100004f,0.0485769995f,0.0488899983f,0.0492490008f,0.0496550016f,0.0501100011f,0.0506139994f,0.0511620007f,0.0517500006f,0.0523729995f,0.0530240014f,0.0537f,0.0543950014f,0.0551030003f,0.0558199994f,0.0565400012f,0.0572590008f,0.0579739995f,0.058685001f,0.0593869984f,0.0600810014f,0.0607639998f,0.0614340007f,0.0620899983f,0.062729001f,0.0633499995f,0.0639519989f,0.0645409971f,0.0651210025f,0.0656990036f,0.0662809983f,0.0668729991f,0.0674810037f,0.0681110024f,0.0687690005f,0.0694599971f,0.0701920018f,0.0709759966f,0.0718249977f,0.0727500021f,0.073762998f,0.0748779997f,0.0761049986f,0.0774580017f,0.078948997f,0.0805900022f,0.0823900029f,0.0843499973f,0.0864650011f,0.0887340009f,0.0911519974f,0.0937179998f,0.0964279994f,0.099278003f,0.10227f,0.105389997f,0.10864f,0.112000003f,0.115440004f,0.118940003f,0.122469999f,0.126010001f,0.129539996f,0.133019999f,0.136429995f,0.139760002f,0.142969996f,0.146080002f,0.149059996f,0.151940003f,0.154709995f,0.157370001f,0.159930006f,0.162379995f,0.164729998f,0.166979998f,0.169139996f,0.171240002f,0.173329994f,0.175439999f,0.177630007f,0.17994f,0.182410002f,0.185069993f,0.187979996f,0.191180006f,0.194710001f,0.198589996f,0.202849999f,0.207519993f,0.212630004f,0.218189999f,0.224240005f,0.230810001f,0.237910002f,0.245570004f,0.253809988f,0.262629986f,0.271979988f,0.28185001f,0.292210013f,0.303050011f,0.314330012f,0.32604f,0.338149995f,0.350629985f,0.363460004f,0.376590014f,0.389970005f,0.403539985f,0.417259991f,0.431059986f,0.444900006f,0.458730012f,0.472490013f,0.486129999f,0.499599993f,0.512880027f,0.525960028f,0.538800001f,0.551400006f,0.563740015f,0.575789988f,0.587539971f,0.598969996f,0.61006999f,0.620819986f,0.631219983f,0.641290009f,0.651049972f,0.660510004f,0.669669986f,0.678560019f,0.687189996f,0.695559978f,0.703700006f,0.711610019f,0.719299972f,0.726769984f,0.734019995f,0.741050005f,0.747870028f,0.754469991f,0.76086998f,0.767050028f,0.773029983f,0.778800011f,0.784370005f,0.78974998f,0.794939995f,0.799950004f,0.80479002f,0.809449971f,0.813950002f,0.818289995f,0.822480023f,0.826520026f,0.830420017f,0.834190011f,0.837819993f,0.841329992f,0.844709992f,0.847980022f,0.851130009f,0.854179978f,0.857119977f,0.859969974f,0.862720013f,0.865390003f,0.867980003f,0.870500028f,0.872950017f,0.875339985f,0.877680004f,0.879970014f,0.88221997f,0.884440005f,0.886619985f,0.888759971f,0.890860021f,0.892920017f,0.894940019f,0.896920025f,0.898850024f,0.900730014f,0.902559996f,0.904340029f,0.906069994f,0.907739997f,0.909359992f,0.91091001f,0.912410021f,0.913850009f,0.915220022f,0.91652f,0.917760015f,0.918929994f,0.920029998f,0.921079993f,0.92207998f,0.923039973f,0.923950016f,0.924839973f,0.925700009f,0.926540017f,0.927370012f,0.928189993f,0.929019988f,0.929849982f,0.930689991f,0.93155998f,0.932449996f,0.933369994f,0.934329987f,0.935329974f,0.936389983f,0.936739981f,0.937529981f,0.938310027f,0.93908f,0.939849973f,0.940599978f,0.941349983f,0.942080021f,0.942809999f,0.943530023f,0.944239974f,0.944939971f,0.945640028f,0.946330011f,0.947000027f,0.947669983f,0.948329985f,0.948989987f,0.949630022f,0.950269997f,0.950900018f,0.95152998f,0.952139974f,0.952750027f,0.953350008f,0.953939974f,0.954530001f,0.955110013f,0.955680013f,0.956250012f,0.956809998f,0.957360029f,0.957899988f,0.958440006f,0.95897001f,0.959500015f,0.960009992f,0.960529983f,0.961030006f,0.96153003f,0.962029994f,0.96250999f,0.963f,0.963469982f,0.963940024f,0.964399993f,0.964860022f,0.965309978f,0.965759993f};
static const float REF_CES06[400] = {0.0452499986f,0.0467739999f,0.048347f,0.0499689989f,0.0516429991f,0.0533699989f,0.0551510006f,0.0569889992f,0.0588830002f,0.0608370006f,0.0628509969f,0.0649269968f,0.0670659989f,0.0692709982f,0.0715430006f,0.0738840029f,0.0762950033f,0.0787779987f,0.0813340023f,0.0839660019f,0.0824920014f,0.0872220024f,0.0917150006f,0.0959749967f,0.10001f,0.103820004f,0.1074f,0.110780001f,0.113940001f,0.116899997f,0.119649999f,0.122199997f,0.124559999f,0.126739994f,0.12872f,0.13053f,0.132159993f,0.133609995f,0.134900004f,0.136030003f,0.136989996f,0.137810007f,0.138479993f,0.139009997f,0.139430001f,0.139750004f,0.139970005f,0.140110001f,0.140169993f,0.140180007f,0.140149996f,0.140080005f,0.139970005f,0.139840007f,0.139660001f,0.139459997f,0.139210001f,0.138940006f,0.138620004f,0.138270006f,0.137879997f,0.137459993f,0.136989996f,0.136500001f,0.135969996f,0.135409996f,0.134819999f,0.134189993f,0.133540004f,0.132870004f,0.132170007f,0.131439999f,0.130689994f,0.129930004f,0.129140005f,0.128350005f,0.127540007f,0.126729995f,0.125919998f,0.125100002f,0.124279998f,0.123470001f,0.122649997f,0.12184f,0.121030003f,0.120209999f,0.119390003f,0.118560001f,0.11772f,0.116870001f,0.115999997f,0.115120001f,0.114229999f,0.113339998f,0.112450004f,0.111570001f,0.110689998f,0.109839998f,0.108999997f,0.108199999f,0.107430004f,0.106689997f,0.105999999f,0.105339997f,0.104719996f,0.10413f,0.103579998f,0.103069998f,0.102580003f,0.102130003f,0.101709999f,0.101319999f,0.100960001f,0.100620002f,0.10029f,0.0999870002f,0.0996930003f,0.0994059965f,0.0991239995f,0.0988420025f,0.0985570028f,0.0982669964f,0.0979729965f,0.0976810008f,0.0973929986f,0.0971150026f,0.0968490019f,0.0966000035f,0.0963720009f,0.0961690024f,0.0959950015f,0.0958520025f,0.0957439989f,0.0956699997f,0.0956310034f,0.0956289992f,0.0956630036f,0.095735997f,0.0958480015f,0.0959990025f,0.0961920023f,0.0964249969f,0.0966999978f,0.0970159993f,0.0973720029f,0.0977680013f,0.0982030034f,0.0986780003f,0.0991910025f,0.0997420028f,0.100330003f,0.100960001f,0.101620004f,0.102329999f,0.103079997f,0.103880003f,0.104719996f,0.105619997f,0.106559999f,0.107560001f,0.108609997f,0.109719999f,0.110890001f,0.112109996f,0.113389999f,0.114720002f,0.116109997f,0.117559999f,0.119050004f,0.120609999f,0.122210003f,0.12387f,0.125579998f,0.127350003f,0.129160002f,0.131040007f,0.132960007f,0.134949997f,0.136989996f,0.139080003f,0.141230002f,0.143439993f,0.145699993f,0.148010001f,0.150360003f,0.15275f,0.155180007f,0.157639995f,0.160129994f,0.162650004f,0.165179998f,0.167730004f,0.170289993f,0.172849998f,0.175410002f,0.177959993f,0.180490002f,0.182999998f,0.18547f,0.187920004f,0.190310001f,0.192660004f,0.194959998f,0.197219998f,0.199420005f,0.201570004f,0.203679994f,0.205730006f,0.207739994f,0.209690005f,0.211600006f,0.213459998f,0.215269998f,0.217010006f,0.218689993f,0.220300004f,0.221829996f,0.223279998f,0.224639997f,0.225909993f,0.227080002f,0.228139997f,0.229100004f,0.229959995f,0.230719998f,0.231389999f,0.23195f,0.232419997f,0.232800007f,0.233089998f,0.233280003f,0.233390003f,0.233429998f,0.233400002f,0.233309999f,0.233180001f,0.233019993f,0.232840002f,0.232649997f,0.232470006f,0.232299998f,0.232160002f,0.23206f,0.232010007f,0.232040003f,0.232150003f,0.232370004f,0.232700005f,0.233170003f,0.233789995f,0.234569997f,0.235520005f,0.236670002f,0.238010004f,0.239559993f,0.241319999f,0.243310004f,0.245529994f,0.247989997f,0.250710011f,0.253690004f,0.256929994f,0.260459989f,0.264290005f,0.268420011f,0.272870004f,0.277640015f,0.282770008f,0.288239986f,0.294079989f,0.300300002f,0.306910008f,0.31389001f,0.321240008f,0.328920007f,0.336950004f,0.345279992f,0.353929996f,0.36285001f,0.372060001f,0.38150999f,0.39120999f,0.401109993f,0.411150008f,0.42129001f,0.431490004f,0.441700011f,0.451869994f,0.461939991f,0.471890002f,0.481649995f,0.491189986f,0.500509977f,0.509609997f,0.518509984f,0.527199984f,0.535700023f,0.544009984f,0.552139997f,0.560100019f,0.567889988f,0.575519979f,0.582979977f,0.590269983f,0.597379982f,0.604300022f,0.611029983f,0.617560029f,0.623889983f,0.629999995f,0.635890007f,0.641560018f,0.646990001f,0.652180016f,0.657119989f,0.661809981f,0.666239977f,0.670409977f,0.674300015f,0.67790997f,0.681230009f,0.689249992f,0.693970025f,0.698639989f,0.703270018f,0.707859993f,0.712409973f,0.716920018f,0.721379995f,0.725799978f,0.730170012f,0.734510005f,0.738789976f,0.743040025f,0.747229993f,0.751380026f,0.755490005f,0.759549975f,0.763559997f,0.767530024f,0.771449983f,0.775319993f,0.779139996f,0.782920003f,0.786660016f,0.790340006f,0.793980002f,0.79756999f,0.801110029f,0.804610014f,0.80805999f,0.811469972f,0.814819992f,0.818130016f,0.821399987f,0.824620008f,0.827790022f,0.830919981f,0.833999991f,0.837040007f,0.840030015f,0.842980027f,0.845879972f,0.848739982f,0.851549983f,0.854330003f,0.857050002f,0.859740019f,0.862380028f,0.864979982f,0.867540002f,0.870060027f,0.872539997f,0.874979973f,0.877380013f,0.879729986f,0.882049978f,0.884329975f,0.886569977f,0.888779998f,0.890940011f,0.893069983f,0.895160019f,0.897220016f,0.899240017f,0.901220024f,0.90316999f,0.905089974f,0.906970024f,0.908819973f,0.910629988f,0.912410021f,0.914160013f,0.915880024f,0.917569995f,0.919229984f,0.920849979f,0.922450006f,0.924009979f,0.925549984f};
static const float REF_CES07[400] = {0.0600129999f,0.0599270016f,0.0598409995f,0.0597550012f,0.0596700013f,0.0595839992f,0.0594989993f,0.0594130009f,0.059328001f,0.059243001f,0.0591580011f,0.0590730011f,0.0589880012f,0.0589030012f,0.0588189997f,0.0587339997f,0.0586499982f,0.0585660003f,0.0584819987f,0.0583980009f,0.0582999997f,0.0582379997f,0.0581590012f,0.0580679998f,0.0579669997f,0.0578580014f,0.0577449985f,0.0576299988f,0.0575149991f,0.0574040003f,0.0573000014f,0.0572040007f,0.0571179986f,0.057041999f,0.0569760017f,0.056919001f,0.0568739995f,0.0568390004f,0.056814f,0.0568020009f,0.0568000004f,0.056809999f,0.0568300001f,0.0568590015f,0.0568960011f,0.0569389984f,0.0569869988f,0.0570380017f,0.0570919998f,0.0571460016f,0.0571999997f,0.057252001f,0.0573019981f,0.0573499985f,0.057395f,0.0574369989f,0.0574770011f,0.0575129986f,0.0575449988f,0.0575749986f,0.057599999f,0.0576209985f,0.0576360002f,0.057643f,0.0576400012f,0.0576249994f,0.0575960018f,0.0575510003f,0.0574879982f,0.0574049987f,0.0573000014f,0.0571720004f,0.0570220016f,0.0568520017f,0.0566649996f,0.0564629994f,0.0562480018f,0.0560219996f,0.0557870008f,0.0555460006f,0.0553000011f,0.055052001f,0.0548029989f,0.0545540005f,0.0543060005f,0.0540600009f,0.0538170002f,0.0535789989f,0.0533460006f,0.053119f,0.0529000014f,0.052689001f,0.0524870008f,0.0522920005f,0.052104f,0.0519229993f,0.0517480001f,0.0515789986f,0.0514150001f,0.0512549989f,0.0511000007f,0.0509489998f,0.0508010015f,0.0506579988f,0.0505190007f,0.0503849983f,0.0502570011f,0.0501339994f,0.0500160009f,0.0499049984f,0.0498000011f,0.0497019999f,0.0496090017f,0.0495220013f,0.0494400002f,0.0493610017f,0.0492849983f,0.0492120013f,0.049141001f,0.0490700006f,0.0489999987f,0.0489300005f,0.0488599986f,0.0487909988f,0.0487239994f,0.0486590005f,0.0485979989f,0.0485409983f,0.0484879985f,0.0484410003f,0.0483999997f,0.048365999f,0.0483370014f,0.0483140014f,0.0482949987f,0.0482780002f,0.0482629985f,0.0482489988f,0.0482340008f,0.0482180007f,0.0482000001f,0.0481790006f,0.0481540002f,0.0481269993f,0.0480980016f,0.0480669998f,0.0480349995f,0.0480020009f,0.0479680002f,0.0479339994f,0.0478999987f,0.0478670001f,0.0478349999f,0.0478050001f,0.0477770008f,0.0477529988f,0.0477319993f,0.0477159992f,0.0477049984f,0.0476990007f,0.0476999991f,0.0477069989f,0.0477209985f,0.0477409996f,0.047766f,0.0477959998f,0.0478300005f,0.0478679985f,0.0479100011f,0.0479540005f,0.0480000004f,0.0480480008f,0.0480999984f,0.0481560007f,0.0482180007f,0.0482879989f,0.048365999f,0.0484549999f,0.048556f,0.0486709997f,0.0487999991f,0.0489460006f,0.0491090007f,0.0492930003f,0.0494990014f,0.0497290008f,0.0499840006f,0.0502669998f,0.0505790003f,0.050923001f,0.0513000004f,0.051713001f,0.052170001f,0.052680999f,0.0532540008f,0.0538970008f,0.0546209998f,0.0554350019f,0.0563459992f,0.0573650002f,0.0584999993f,0.0597609989f,0.0611630008f,0.0627200007f,0.0644460022f,0.0663570017f,0.0684669986f,0.070791997f,0.0733459964f,0.0761440024f,0.0791999996f,0.0825299993f,0.0861520022f,0.0900819972f,0.0943379998f,0.0989380032f,0.1039f,0.109240003f,0.114969999f,0.121119998f,0.127700001f,0.134719998f,0.142169997f,0.150020003f,0.158250004f,0.166830003f,0.175750002f,0.184980005f,0.194499999f,0.204280004f,0.214300007f,0.224539995f,0.234950006f,0.24549f,0.256110013f,0.266770005f,0.277410001f,0.288010001f,0.298500001f,0.30884999f,0.319000006f,0.328920007f,0.338580012f,0.347970009f,0.357050002f,0.365799993f,0.374220014f,0.382259995f,0.38993001f,0.397179991f,0.404000014f,0.410380006f,0.416319996f,0.421849996f,0.426979989f,0.431719989f,0.436100006f,0.440129995f,0.443830013f,0.447210014f,0.450300008f,0.453110009f,0.455650002f,0.457949996f,0.460020006f,0.461879998f,0.463539988f,0.465030015f,0.466360003f,0.467539996f,0.468600005f,0.469550014f,0.470389992f,0.471130013f,0.471769989f,0.472299993f,0.472750008f,0.473089993f,0.473349988f,0.473520011f,0.4736f,0.4736f,0.473520011f,0.473379999f,0.47319001f,0.472959995f,0.472689986f,0.47240001f,0.47209999f,0.471789986f,0.471500009f,0.471219987f,0.470970005f,0.470730007f,0.470499992f,0.470299989f,0.470109999f,0.469940007f,0.469779998f,0.469630003f,0.469500005f,0.469379991f,0.469269991f,0.469159991f,0.469040006f,0.468910009f,0.468769997f,0.468600005f,0.468400002f,0.468169987f,0.467900008f,0.467579991f,0.467229992f,0.466850013f,0.46645999f,0.466069996f,0.465689987f,0.465330005f,0.465009987f,0.464729995f,0.46450001f,0.464159995f,0.463860005f,0.463559985f,0.463259995f,0.462969989f,0.462669998f,0.462370008f,0.462069988f,0.461780012f,0.461479992f,0.461180001f,0.460880011f,0.460579991f,0.460290015f,0.459989995f,0.459690005f,0.459390014f,0.459100008f,0.458799988f,0.458499998f,0.458209991f,0.457910001f,0.457610011f,0.457309991f,0.457020015f,0.456719995f,0.456420004f,0.456120014f,0.455830008f,0.455529988f,0.455229998f,0.454939991f,0.454640001f,0.454340011f,0.454039991f,0.453750014f,0.453449994f,0.453150004f,0.452859998f,0.452560008f,0.452259988f,0.451970011f,0.451669991f,0.451370001f,0.451079994f,0.450780004f,0.450480014f,0.450190008f,0.449889988f,0.449589998f,0.449299991f,0.449000001f,0.448709995f,0.448410004f,0.448110014f,0.447820008f,0.447519988f,0.447219998f,0.446929991f,0.446630001f,0.446339995f,0.446040004f,0.445740014f,0.445450008f,0.445149988f,0.444860011f,0.444559991f,0.444270015f,0.443969995f,0.443670005f,0.443379998f,0.443080008f,0.442790002f,0.442490011f,0.442200005f,0.441900015f,0.441610008f,0.441309988f,0.441009998f};
static const float REF_CES08[400] = {0.0581800006f,0.0585879982f,0.0589299984f,0.0592119992f,0.0594369993f,0.0596100017f,0.0597340018f,0.0598150007f,0.0598569997f,0.0598639995f,0.0598400012f,0.0597900003f,0.0597169995f,0.0596270002f,0.0595230013f,0.0594099984f,0.0592929982f,0.0591749996f,0.0590599999f,0.0589540005f,0.0588600002f,0.0587820001f,0.0587170012f,0.0586640015f,0.058619f,0.0585790016f,0.0585409999f,0.0585040003f,0.0584629998f,0.0584160015f,0.0583599992f,0.0582929999f,0.0582179986f,0.0581380017f,0.0580549985f,0.0579730012f,0.0578959994f,0.0578260012f,0.0577660017f,0.0577189997f,0.0576899983f,0.0576790012f,0.0576860011f,0.057705f,0.0577349998f,0.0577719994f,0.0578129999f,0.0578549989f,0.0578930005f,0.0579259992f,0.0579500012f,0.0579620004f,0.0579629987f,0.0579520017f,0.0579320006f,0.0579020008f,0.0578639992f,0.0578179993f,0.0577640012f,0.057705f,0.0576400012f,0.0575699992f,0.0574980006f,0.0574249998f,0.0573539995f,0.0572860017f,0.0572229996f,0.0571690015f,0.0571230017f,0.0570899993f,0.0570699982f,0.0570649989f,0.0570730008f,0.0570910014f,0.0571160018f,0.0571449995f,0.0571760014f,0.0572040007f,0.057227999f,0.0572439991f,0.0572500005f,0.0572430007f,0.0572240017f,0.0571950004f,0.0571580008f,0.0571129993f,0.0570640005f,0.0570119992f,0.056956999f,0.0569030009f,0.0568500012f,0.0568000004f,0.0567540005f,0.0567100011f,0.0566690005f,0.0566309988f,0.0565950014f,0.0565610006f,0.0565290004f,0.0564990006f,0.0564699993f,0.0564429983f,0.0564149991f,0.0563879982f,0.0563579984f,0.0563259982f,0.0562900007f,0.0562499985f,0.0562039986f,0.0561509989f,0.056090001f,0.0560210012f,0.0559450015f,0.0558639988f,0.0557789989f,0.0556919985f,0.0556050017f,0.0555200018f,0.0554380007f,0.055360999f,0.0552899987f,0.0552270003f,0.0551729985f,0.0551250018f,0.0550849997f,0.0550509989f,0.0550229996f,0.0549999997f,0.0549819991f,0.0549690016f,0.0549600013f,0.0549539998f,0.054951001f,0.0549499989f,0.0549490005f,0.0549479984f,0.0549460016f,0.0549420007f,0.0549359992f,0.0549249984f,0.0549100004f,0.054889001f,0.0548640005f,0.0548349991f,0.0548029989f,0.0547679998f,0.0547319986f,0.054694999f,0.0546590015f,0.0546230003f,0.0545900017f,0.0545589998f,0.0545310006f,0.0545060001f,0.0544830002f,0.0544640012f,0.054446999f,0.0544329993f,0.0544230007f,0.0544149987f,0.0544099994f,0.0544079989f,0.054409001f,0.0544119999f,0.0544160008f,0.0544210002f,0.0544259995f,0.0544309989f,0.0544359982f,0.0544390008f,0.0544399992f,0.0544390008f,0.0544370003f,0.0544359982f,0.0544379987f,0.0544430017f,0.0544530004f,0.054471001f,0.0544969998f,0.0545319989f,0.0545799993f,0.0546399988f,0.0547140017f,0.0547990017f,0.0548960008f,0.055004999f,0.0551260002f,0.055257f,0.0553979985f,0.0555489995f,0.0557099991f,0.0558810011f,0.0560699999f,0.0562830009f,0.0565299988f,0.056818001f,0.0571539998f,0.0575480014f,0.0580059998f,0.058538001f,0.0591499992f,0.0598520003f,0.0606539994f,0.0615699999f,0.0626109987f,0.0637879968f,0.0651160032f,0.0666040033f,0.0682670027f,0.0701140016f,0.0721599981f,0.0744149983f,0.0768920034f,0.0796020031f,0.0825570002f,0.0857689977f,0.0892480016f,0.0930069983f,0.0970579982f,0.101410002f,0.106080003f,0.11107f,0.116379999f,0.12201f,0.127939999f,0.134169996f,0.140699998f,0.147510007f,0.154609993f,0.161980003f,0.169620007f,0.177520007f,0.185660005f,0.194010004f,0.202570006f,0.211300001f,0.220180005f,0.229200006f,0.238330007f,0.247549996f,0.256839991f,0.266180009f,0.275539994f,0.284920007f,0.29429999f,0.303660005f,0.312979996f,0.322250009f,0.331459999f,0.340570003f,0.349590003f,0.35848999f,0.367260009f,0.375880003f,0.384350002f,0.392659992f,0.400779992f,0.408719987f,0.416449994f,0.42396f,0.431250006f,0.438300014f,0.445109993f,0.451689988f,0.458050013f,0.464170009f,0.470079988f,0.47578001f,0.481260002f,0.486530006f,0.491600007f,0.496470004f,0.501150012f,0.505630016f,0.509930015f,0.51406002f,0.51801002f,0.521799982f,0.52542001f,0.52888f,0.532199979f,0.535369992f,0.538399994f,0.541310012f,0.544089973f,0.546760023f,0.549319983f,0.551789999f,0.554170012f,0.556469977f,0.558700025f,0.560859978f,0.562969983f,0.565020025f,0.567019999f,0.568970025f,0.570869982f,0.572730005f,0.574559987f,0.576359987f,0.578119993f,0.579859972f,0.581570029f,0.583270013f,0.58494997f,0.586619973f,0.588270009f,0.589909971f,0.591549993f,0.593190014f,0.594829977f,0.596469998f,0.59811002f,0.599749982f,0.601390004f,0.603030026f,0.604659975f,0.606280029f,0.60789001f,0.609499991f,0.611090004f,0.612670004f,0.614229977f,0.615769982f,0.61729002f,0.618780017f,0.620239973f,0.621670008f,0.623070002f,0.624419987f,0.625739992f,0.627009988f,0.628239989f,0.62944001f,0.630599976f,0.63173002f,0.632839978f,0.633930027f,0.634989977f,0.636049986f,0.637090027f,0.638130009f,0.639159977f,0.640200019f,0.641240001f,0.642279983f,0.643350005f,0.644420028f,0.645519972f,0.646640003f,0.647790015f,0.648670018f,0.649720013f,0.650770009f,0.65180999f,0.652849972f,0.653890014f,0.654929996f,0.655969977f,0.657000005f,0.658039987f,0.659070015f,0.660099983f,0.661130011f,0.662159979f,0.663190007f,0.664210021f,0.66523999f,0.666260004f,0.667280018f,0.668299973f,0.669319987f,0.670329988f,0.671350002f,0.672360003f,0.673370004f,0.674380004f,0.675390005f,0.676389992f,0.677399993f,0.67839998f,0.679400027f,0.680400014f,0.681400001f,0.682399988f,0.683390021f,0.684390008f,0.685379982f,0.686370015f,0.687349975f,0.688340008f,0.689329982f,0.690310001f,0.691290021f,0.692269981f,0.69325f,0.694220006f,0.695200026f,0.696169972f,0.697139978f};
static const float REF_CES09[400] = {0.0415729992f,0.041602999f,0.0416329987f,0.0416629985f,0.0416929983f,0.0417230017f,0.0417530015f,0.0417830013f,0.041813001f,0.0418430008f,0.0418730006f,0.0419030003f,0.0419330001f,0.0419639982f,0.0419940017f,0.0420240015f,0.0420540012f,0.0420849994f,0.0421149991f,0.0421449989f,0.0422490016f,0.0422479995f,0.0422520004f,0.0422610007f,0.0422739983f,0.0422919989f,0.0423140004f,0.0423419997f,0.0423749983f,0.042413f,0.0424549989f,0.0425029993f,0.042555999f,0.0426150002f,0.0426790006f,0.0427480005f,0.0428219996f,0.0429020002f,0.0429879986f,0.0430799983f,0.0431770012f,0.0432789996f,0.0433880016f,0.0435010009f,0.0436189994f,0.0437420011f,0.0438689999f,0.0439999998f,0.0441339985f,0.0442720018f,0.0444130003f,0.0445570014f,0.0447029993f,0.0448519997f,0.0450030006f,0.0451570004f,0.0453130007f,0.0454710014f,0.0456309989f,0.045793999f,0.0459589995f,0.0461260006f,0.046294f,0.0464649983f,0.0466380008f,0.0468120016f,0.0469890013f,0.0471669994f,0.0473459996f,0.0475279987f,0.0477109998f,0.0478949994f,0.0480789989f,0.0482620001f,0.0484410003f,0.0486159995f,0.0487839989f,0.0489440002f,0.049093999f,0.0492330007f,0.0493590012f,0.0494720004f,0.049571f,0.0496589988f,0.049736999f,0.0498059988f,0.0498690009f,0.0499260016f,0.0499799997f,0.0500309989f,0.0500809997f,0.050131999f,0.0501889996f,0.050255999f,0.0503389984f,0.0504410006f,0.0505679995f,0.0507250018f,0.0509160012f,0.0511460006f,0.0514199995f,0.0517419986f,0.0521060005f,0.0525069982f,0.0529390015f,0.0533969998f,0.0538729988f,0.0543630011f,0.0548599996f,0.0553580001f,0.0558510013f,0.0563340001f,0.0568009987f,0.0572450012f,0.057661999f,0.0580449998f,0.0583879985f,0.0586859994f,0.0589339994f,0.0591240004f,0.0592520013f,0.0593129992f,0.0593120009f,0.0592529997f,0.0591429994f,0.0589869991f,0.0587899983f,0.058557f,0.0582959987f,0.0580100007f,0.0577059984f,0.0573889986f,0.0570599996f,0.0567209981f,0.0563739985f,0.0560199991f,0.0556610003f,0.0552980006f,0.0549330004f,0.0545670018f,0.0542029999f,0.0538400002f,0.0534790009f,0.053119f,0.0527600013f,0.0524020009f,0.0520429984f,0.0516839996f,0.0513230003f,0.050960999f,0.0505959988f,0.0502290018f,0.0498580001f,0.0494830012f,0.0491029993f,0.0487169996f,0.0483249985f,0.0479260013f,0.0475200005f,0.047104001f,0.0466799997f,0.0462459996f,0.0458049998f,0.0453579985f,0.0449069999f,0.0444549993f,0.0440040007f,0.043556001f,0.0431119986f,0.0426760018f,0.0422490016f,0.0418340005f,0.0414349996f,0.0410559997f,0.0407020003f,0.0403780006f,0.040089f,0.0398380011f,0.0396299995f,0.0394710004f,0.0393639989f,0.0393129997f,0.0393150002f,0.0393670015f,0.039464999f,0.0396040007f,0.0397830009f,0.0399959981f,0.0402400009f,0.0405119993f,0.0408070013f,0.0411220007f,0.0414570011f,0.0418110006f,0.0421850011f,0.0425780006f,0.0429899991f,0.0434210002f,0.0438699983f,0.0443390012f,0.0448249988f,0.0453299992f,0.0458509997f,0.0463869981f,0.0469360016f,0.0474950001f,0.0480629988f,0.0486389995f,0.0492199995f,0.0498039983f,0.0503900014f,0.0509749986f,0.0515559986f,0.0521279983f,0.0526870005f,0.0532299988f,0.0537509993f,0.0542469993f,0.0547140017f,0.0551469997f,0.0555419996f,0.0558970012f,0.0562120005f,0.0564920008f,0.0567389987f,0.056956999f,0.0571479984f,0.0573149994f,0.0574619994f,0.0575909987f,0.0577059984f,0.0578100011f,0.0579029992f,0.0579870008f,0.0580639988f,0.0581340007f,0.0581989996f,0.0582600012f,0.0583169982f,0.0583730005f,0.0584280007f,0.0584830008f,0.058538001f,0.0585930012f,0.0586480014f,0.0587010011f,0.0587540008f,0.0588040017f,0.0588530004f,0.0588990003f,0.0589429997f,0.0589840002f,0.0590250008f,0.0590680018f,0.0591159984f,0.0591720007f,0.0592380017f,0.0593179986f,0.0594139993f,0.0595280007f,0.0596639998f,0.0598229989f,0.0600039996f,0.0602039993f,0.0604210012f,0.0606510006f,0.0608940013f,0.0611459985f,0.061404001f,0.061666999f,0.0619309992f,0.0621949993f,0.0624560006f,0.0627119988f,0.0629609972f,0.0632010028f,0.0634310022f,0.063647002f,0.0638490021f,0.0640330017f,0.0641980022f,0.064342998f,0.0644679964f,0.0645740032f,0.0646639988f,0.0647379979f,0.0647969991f,0.0648439974f,0.0648790002f,0.0649039969f,0.0649190024f,0.0649280027f,0.064929001f,0.0649230033f,0.0649110004f,0.0648920015f,0.0648669973f,0.0648360029f,0.0648000017f,0.0647590011f,0.0647130013f,0.0646630004f,0.0646080002f,0.0645480007f,0.0644830018f,0.0644130036f,0.064338997f,0.0642599985f,0.0641760007f,0.0640859976f,0.0639920011f,0.0638929978f,0.0637879968f,0.0636779964f,0.0635629967f,0.0634419993f,0.0633160025f,0.0631840006f,0.0630469993f,0.0629040003f,0.0627560019f,0.0627280027f,0.0626169965f,0.0625049993f,0.0623940006f,0.0622830018f,0.0621730015f,0.062061999f,0.0619519986f,0.0618419982f,0.0617320016f,0.0616220012f,0.0615120009f,0.0614029989f,0.0612940006f,0.0611840002f,0.0610760003f,0.0609669983f,0.0608580001f,0.0607500002f,0.0606420003f,0.0605340004f,0.0604260005f,0.0603180006f,0.0602109991f,0.0601040013f,0.0599969998f,0.0598899983f,0.0597830005f,0.059675999f,0.0595699996f,0.0594640002f,0.0593580008f,0.0592520013f,0.0591459982f,0.0590410009f,0.0589359999f,0.0588300005f,0.0587249994f,0.0586210005f,0.0585159995f,0.0584120005f,0.0583069995f,0.0582030006f,0.0580990016f,0.0579960011f,0.0578919984f,0.0577890016f,0.0576860011f,0.0575819984f,0.05748f,0.0573769994f,0.0572739989f,0.0571720004f,0.0570699982f,0.0569679998f,0.0568660013f,0.0567639992f,0.0566629991f,0.056561999f,0.0564600006f,0.0563590005f,0.0562589988f,0.0561579987f,0.0560569987f,0.0559570007f,0.055856999f,0.055757001f,0.0556569993f,0.0555579998f,0.0554580018f,0.0553589985f,0.0552599989f,0.0551609993f,0.0550619997f,0.0549630001f,0.0548649989f,0.0547670014f,0.0546680018f,0.0545700006f};
static const float REF_CES10[400] = {0.176019996f,0.177149996f,0.178279996f,0.179419994f,0.180570006f,0.181720003f,0.182870001f,0.184039995f,0.185200006f,0.186379999f,0.187560007f,0.18874f,0.189930007f,0.191129997f,0.192330003f,0.193540007f,0.194759995f,0.195969999f,0.1972f,0.198430002f,0.199829996f,0.20081f,0.202010006f,0.203370005f,0.204809994f,0.206279993f,0.207690001f,0.208989993f,0.210109994f,0.210969999f,0.211520001f,0.211689994f,0.211520001f,0.211060002f,0.210350007f,0.209439993f,0.208379999f,0.207200006f,0.205970004f,0.204730004f,0.20352f,0.202380002f,0.201309994f,0.200320005f,0.199379995f,0.198500007f,0.197669998f,0.196889997f,0.196140006f,0.195419997f,0.194729999f,0.194049999f,0.193389997f,0.192750007f,0.192120001f,0.191489995f,0.190880001f,0.190259993f,0.189649999f,0.189030007f,0.188419998f,0.187790006f,0.187169999f,0.186539993f,0.185910001f,0.185289994f,0.184670001f,0.184060007f,0.183459997f,0.182879999f,0.18231f,0.18175f,0.181219995f,0.180710003f,0.180230007f,0.179780006f,0.179350004f,0.178969994f,0.178619996f,0.178299993f,0.178039998f,0.177809998f,0.177619994f,0.17746f,0.177320004f,0.177180007f,0.177049994f,0.176909998f,0.176760003f,0.176579997f,0.176369995f,0.176109999f,0.175809994f,0.175469995f,0.17509f,0.174669996f,0.174199998f,0.173690006f,0.173140004f,0.172549993f,0.171920002f,0.171250001f,0.170550004f,0.169819996f,0.169080004f,0.168339998f,0.167600006f,0.166879997f,0.166170001f,0.165509999f,0.164879993f,0.164299995f,0.163780004f,0.163299993f,0.162880003f,0.162499994f,0.162169993f,0.16189f,0.161660001f,0.161479995f,0.161349997f,0.161259994f,0.161210001f,0.161190003f,0.161190003f,0.161200002f,0.161210001f,0.161219999f,0.161210001f,0.161180004f,0.161109999f,0.160999998f,0.160870001f,0.160730004f,0.160589993f,0.160469994f,0.160390005f,0.160359994f,0.160400003f,0.160530001f,0.160750002f,0.161090001f,0.16155f,0.162110001f,0.16279f,0.163570002f,0.164460003f,0.165460005f,0.166549996f,0.167750001f,0.169039994f,0.170430005f,0.171920002f,0.173490003f,0.175150007f,0.176890001f,0.178709999f,0.180610001f,0.182579994f,0.184630007f,0.186729997f,0.188909993f,0.191159993f,0.193499997f,0.195940003f,0.198500007f,0.201199993f,0.204030007f,0.207029998f,0.210189998f,0.213550001f,0.217099994f,0.220850006f,0.224820003f,0.22902f,0.233449996f,0.238120005f,0.243039995f,0.248219997f,0.253659993f,0.259380013f,0.265390009f,0.27173999f,0.278490007f,0.285699993f,0.293410003f,0.301679999f,0.310579985f,0.320160002f,0.330469996f,0.34156999f,0.353500009f,0.366210014f,0.379619986f,0.393680006f,0.408300012f,0.423420012f,0.438959986f,0.454869986f,0.471069992f,0.487489998f,0.50405997f,0.520709991f,0.537389994f,0.554009974f,0.570529997f,0.586860001f,0.602949977f,0.618719995f,0.634119987f,0.649079978f,0.663529992f,0.677460015f,0.690850019f,0.703689992f,0.715960026f,0.727649987f,0.738740027f,0.749220014f,0.759079993f,0.768299997f,0.776870012f,0.784799993f,0.792140007f,0.798889995f,0.805079997f,0.81072998f,0.815880001f,0.820540011f,0.824729979f,0.828490019f,0.831830025f,0.834800005f,0.83743f,0.839770019f,0.841849983f,0.843710005f,0.845399976f,0.846949995f,0.848399997f,0.849789977f,0.851149976f,0.852490008f,0.853810012f,0.855099976f,0.856369972f,0.857599974f,0.858799994f,0.85996002f,0.861090004f,0.862169981f,0.863210022f,0.86421001f,0.865170002f,0.866079986f,0.866949975f,0.867770016f,0.868550003f,0.869289994f,0.869989991f,0.87063998f,0.871249974f,0.871819973f,0.872359991f,0.872870028f,0.873369992f,0.873849988f,0.874319971f,0.874790013f,0.875270009f,0.875750005f,0.876240015f,0.876749992f,0.877250016f,0.877749979f,0.878220022f,0.878679991f,0.879100025f,0.879490018f,0.879819989f,0.880110025f,0.880330026f,0.880490005f,0.880609989f,0.880689979f,0.880739987f,0.880760014f,0.880760014f,0.880760014f,0.88075f,0.88075f,0.880760014f,0.880779982f,0.880810022f,0.880840003f,0.880859971f,0.880879998f,0.880890012f,0.880890012f,0.880869985f,0.88082999f,0.880770028f,0.880689979f,0.880599976f,0.880509973f,0.880439997f,0.880379975f,0.880349994f,0.880349994f,0.880400002f,0.880500019f,0.880659997f,0.880869985f,0.881110013f,0.881380022f,0.881669998f,0.881959975f,0.882239997f,0.882499993f,0.882719994f,0.882910013f,0.883180022f,0.883409977f,0.883650005f,0.883889973f,0.884119987f,0.884360015f,0.88459003f,0.884829998f,0.885060012f,0.885290027f,0.885519981f,0.885760009f,0.885990024f,0.886219978f,0.886449993f,0.886680007f,0.886910021f,0.887139976f,0.88736999f,0.887600005f,0.887830019f,0.888059974f,0.888289988f,0.888509989f,0.888740003f,0.888970017f,0.889190018f,0.889419973f,0.889639974f,0.889869988f,0.890089989f,0.890320003f,0.890540004f,0.890770018f,0.890990019f,0.89121002f,0.89143002f,0.891659975f,0.891879976f,0.892099977f,0.892319977f,0.892539978f,0.892759979f,0.89297998f,0.89319998f,0.893419981f,0.893630028f,0.893850029f,0.894070029f,0.89428997f,0.894500017f,0.894720018f,0.894940019f,0.895150006f,0.895370007f,0.895579994f,0.895799994f,0.896009982f,0.896220028f,0.896440029f,0.896650016f,0.896860003f,0.897069991f,0.897289991f,0.897499979f,0.897710025f,0.897920012f,0.89813f,0.898339987f,0.898549974f,0.898760021f,0.898959994f,0.899169981f,0.899380028f,0.899590015f,0.899800003f,0.899999976f,0.900210023f,0.900409997f};
static const float REF_CES11[400] = {0.0395109989f,0.0404619984f,0.0414340012f,0.0424290001f,0.043446999f,0.044489f,0.0455540009f,0.0466430001f,0.0477569997f,0.0488959998f,0.0500609986f,0.0512529984f,0.0524710007f,0.0537160002f,0.0549889989f,0.0562909991f,0.0576209985f,0.0589810014f,0.0603710003f,0.0617920011f,0.0608099997f,0.0634149984f,0.065866001f,0.0681660026f,0.0703179985f,0.0723270029f,0.0741949975f,0.075925f,0.0775209963f,0.0789859965f,0.0803240016f,0.0815379992f,0.082630001f,0.0836059973f,0.0844660029f,0.0852169991f,0.0858590007f,0.0863969997f,0.0868349969f,0.0871749967f,0.0874200016f,0.0875760019f,0.087650001f,0.0876519978f,0.0875909999f,0.0874769986f,0.0873190016f,0.0871260017f,0.0869079977f,0.0866750032f,0.0864349976f,0.0861949995f,0.0859559998f,0.0857110023f,0.0854590014f,0.0851960033f,0.0849170014f,0.0846190006f,0.0842989981f,0.0839530006f,0.0835760012f,0.083168f,0.0827260017f,0.0822509974f,0.0817449987f,0.0812060013f,0.0806370005f,0.0800369978f,0.0794069991f,0.0787469968f,0.0780569986f,0.077339001f,0.0765950009f,0.0758259967f,0.0750359967f,0.0742269978f,0.0733999982f,0.0725599974f,0.0717070028f,0.0708450004f,0.069976002f,0.0691009983f,0.0682210028f,0.0673350021f,0.0664419979f,0.0655419976f,0.0646329969f,0.0637170002f,0.0627909973f,0.0618549995f,0.0609080009f,0.0599519983f,0.0589889996f,0.0580269992f,0.0570689999f,0.0561229996f,0.0551920012f,0.0542839989f,0.0534019992f,0.0525530018f,0.0517419986f,0.0509740002f,0.0502489991f,0.0495660007f,0.0489250012f,0.0483260006f,0.0477669984f,0.0472479984f,0.0467690006f,0.0463289991f,0.0459280014f,0.0455630012f,0.0452330001f,0.0449329987f,0.0446599983f,0.0444100015f,0.0441780016f,0.0439609997f,0.0437560007f,0.0435589999f,0.0433650017f,0.0431720018f,0.0429809988f,0.0427929983f,0.0426089987f,0.042431999f,0.0422619991f,0.0421009995f,0.0419510007f,0.0418139994f,0.0416899994f,0.0415810011f,0.0414879993f,0.0414119996f,0.0413520001f,0.0413109995f,0.0412879996f,0.0412839986f,0.0412999988f,0.0413369983f,0.041393999f,0.0414730012f,0.0415770002f,0.0417089984f,0.0418710001f,0.0420669988f,0.0423000008f,0.0425730012f,0.042888999f,0.0432499982f,0.0436609983f,0.0441249982f,0.044656001f,0.0452679992f,0.0459740013f,0.0467909984f,0.0477319993f,0.0488109998f,0.0500430018f,0.051442001f,0.0530240014f,0.0548009984f,0.0567910001f,0.0590079986f,0.0614680015f,0.0641859993f,0.0671780035f,0.0704590008f,0.0740460008f,0.0779530033f,0.0821970031f,0.0867889971f,0.0917290002f,0.0970140025f,0.102640003f,0.108609997f,0.114909999f,0.121540003f,0.1285f,0.135790005f,0.143399999f,0.151319996f,0.159529999f,0.167989999f,0.176660001f,0.185519993f,0.194519997f,0.203639999f,0.212830007f,0.222069994f,0.231309995f,0.240539998f,0.249699995f,0.258769989f,0.267720014f,0.27651f,0.28512001f,0.293489993f,0.301620007f,0.309450001f,0.316960007f,0.324119985f,0.330929995f,0.337399989f,0.343529999f,0.349330008f,0.354799986f,0.359950006f,0.364780009f,0.369309992f,0.37353f,0.377460003f,0.381099999f,0.38448f,0.387609988f,0.390509993f,0.393180013f,0.395660013f,0.39794001f,0.400059998f,0.402009994f,0.403829992f,0.405519992f,0.407099992f,0.408569992f,0.409960002f,0.411269993f,0.412510008f,0.413709998f,0.414869994f,0.416009992f,0.417140007f,0.418260008f,0.419389993f,0.420540005f,0.421719998f,0.422930002f,0.424190015f,0.425500005f,0.426880002f,0.428330004f,0.429859996f,0.43147999f,0.433180004f,0.434960008f,0.436839998f,0.438800007f,0.44084999f,0.442990005f,0.445219994f,0.447549999f,0.449959993f,0.452470005f,0.455049992f,0.457709998f,0.460449994f,0.463239998f,0.466089994f,0.469000012f,0.471949995f,0.474949986f,0.477979988f,0.481059998f,0.484189987f,0.487390012f,0.490660012f,0.494029999f,0.497489989f,0.501049995f,0.50474f,0.508549988f,0.512510002f,0.516589999f,0.520810008f,0.525150001f,0.529619992f,0.534210026f,0.538919985f,0.543739974f,0.54865998f,0.553690016f,0.558820009f,0.564029992f,0.569280028f,0.574549973f,0.579819977f,0.585049987f,0.590229988f,0.595319986f,0.600300014f,0.605139971f,0.609820008f,0.614359975f,0.61875999f,0.623059988f,0.627260029f,0.631389976f,0.635460019f,0.639490008f,0.643509984f,0.647520006f,0.651549995f,0.655579984f,0.659600019f,0.663619995f,0.667599976f,0.671549976f,0.675450027f,0.679289997f,0.68305999f,0.686749995f,0.690339983f,0.693840027f,0.697220027f,0.700479984f,0.703599989f,0.706579983f,0.709399998f,0.712050021f,0.714519978f,0.716809988f,0.721660018f,0.724740028f,0.727800012f,0.730849981f,0.733860016f,0.736859977f,0.739839971f,0.742789984f,0.745720029f,0.748629987f,0.751519978f,0.754390001f,0.757229984f,0.760049999f,0.762849987f,0.765619993f,0.768369973f,0.771099985f,0.773810029f,0.776499987f,0.779160023f,0.781799972f,0.78441f,0.787010014f,0.789579988f,0.79211998f,0.794650018f,0.797150016f,0.799629986f,0.802089989f,0.804520011f,0.806930006f,0.809319973f,0.811689973f,0.814029992f,0.816349983f,0.818650007f,0.820919991f,0.82318002f,0.825410008f,0.827620029f,0.82980001f,0.831969976f,0.834110022f,0.83622998f,0.838329971f,0.840409994f,0.842459977f,0.844489992f,0.846509993f,0.848500013f,0.850470006f,0.852410018f,0.854340017f,0.856249988f,0.858129978f,0.860000014f,0.86184001f,0.863669991f,0.865469992f,0.867250025f,0.869019985f,0.870760024f,0.872479975f,0.874189973f,0.875869989f,0.877539992f,0.879180014f,0.880810022f,0.882420003f,0.884010017f,0.885580003f,0.887130022f,0.888660014f,0.890179992f,0.891669989f,0.893149972f,0.894609988f,0.89605999f};
static const float REF_CES12[400] = {0.241669998f,0.237159997f,0.232669994f,0.227809995f,0.222130001f,0.216220006f,0.210720003f,0.204830006f,0.198909998f,0.192980006f,0.186869994f,0.180779994f,0.175420001f,0.170619994f,0.166079998f,0.162039995f,0.158329993f,0.154019997f,0.150849998f,0.148149997f,0.145140007f,0.14215f,0.139489993f,0.136460006f,0.133080006f,0.129810005f,0.126550004f,0.123400003f,0.120609999f,0.118019998f,0.115359999f,0.113190003f,0.111050002f,0.108840004f,0.107069999f,0.105839998f,0.105190001f,0.104970001f,0.104900002f,0.104719996f,0.1043f,0.103830002f,0.102810003f,0.101450004f,0.0998150036f,0.0987079963f,0.0979669988f,0.0969780013f,0.0958769992f,0.0951580033f,0.0948330015f,0.0946869999f,0.0948079973f,0.095573999f,0.0967290029f,0.0976710021f,0.0981369987f,0.0981670022f,0.0984390005f,0.0988309979f,0.0982920006f,0.0974820033f,0.0969400033f,0.0964159966f,0.0955429971f,0.0947349966f,0.0950009972f,0.0954089984f,0.095288001f,0.0946720019f,0.0939470008f,0.0938080028f,0.0934059992f,0.0929170027f,0.0924310014f,0.0919129997f,0.0912299976f,0.0901969969f,0.0887980014f,0.0874219984f,0.0860249996f,0.0846410021f,0.0832849964f,0.0822589993f,0.0820970014f,0.0813279971f,0.0803200006f,0.0790209994f,0.0774590001f,0.0761969984f,0.0754109994f,0.0744640008f,0.0733079985f,0.0720319971f,0.0706520006f,0.068276003f,0.0666069984f,0.0651160032f,0.063657999f,0.0625960007f,0.0615920015f,0.0600019991f,0.0588329993f,0.0581859984f,0.0577780008f,0.0571880005f,0.0562420003f,0.0551100001f,0.0544169992f,0.0543420017f,0.0541619994f,0.053723f,0.053394001f,0.0528250001f,0.0519790016f,0.0508649983f,0.0500070006f,0.0495610014f,0.0493209995f,0.0490529984f,0.0486720018f,0.0483630002f,0.0485950001f,0.0490589999f,0.0495200008f,0.0499479994f,0.0505979992f,0.0509970002f,0.0511670001f,0.051603999f,0.0523510017f,0.0531250015f,0.0539389998f,0.0544410013f,0.0549390018f,0.0556459986f,0.0563060008f,0.0567720011f,0.0576170012f,0.0588800013f,0.0597949997f,0.0602679998f,0.0607450008f,0.0613449998f,0.0623259991f,0.063376002f,0.0641930029f,0.0652230009f,0.0670080036f,0.0692839995f,0.0711890012f,0.073067002f,0.0752590001f,0.0776619986f,0.0800179988f,0.0820320025f,0.0843660012f,0.087439999f,0.0905409977f,0.0935740024f,0.0965839997f,0.0999070033f,0.103399999f,0.106830001f,0.110169999f,0.113739997f,0.117600001f,0.121370003f,0.125090003f,0.128739998f,0.132499993f,0.136329994f,0.140609995f,0.145390004f,0.150189996f,0.155159995f,0.160280004f,0.165590003f,0.171189994f,0.176960006f,0.183310002f,0.18998f,0.196769997f,0.203500003f,0.209999993f,0.216580003f,0.223299995f,0.230350003f,0.237749994f,0.245499998f,0.253340006f,0.260960013f,0.268429995f,0.275779992f,0.283419997f,0.291350007f,0.299789995f,0.308750004f,0.316890001f,0.325509995f,0.333920002f,0.342429996f,0.351639986f,0.361310005f,0.370680004f,0.37966001f,0.38876f,0.398000002f,0.407260001f,0.417389989f,0.426910013f,0.436060011f,0.445219994f,0.454250008f,0.462799996f,0.471370012f,0.480489999f,0.489300013f,0.497370005f,0.505020022f,0.512600005f,0.520250022f,0.528609991f,0.53561002f,0.542050004f,0.548740029f,0.55588001f,0.562179983f,0.567910016f,0.574020028f,0.579599977f,0.584770024f,0.589489996f,0.593209982f,0.598320007f,0.603020012f,0.607079983f,0.610669971f,0.614310026f,0.618260026f,0.622300029f,0.625890017f,0.629400015f,0.632679999f,0.635720015f,0.637690008f,0.639890015f,0.642050028f,0.643840015f,0.645529985f,0.647589982f,0.649760008f,0.651870012f,0.653789997f,0.655390024f,0.657050014f,0.659020007f,0.660820007f,0.661819994f,0.663879991f,0.666059971f,0.667590022f,0.668479979f,0.670130014f,0.671119988f,0.672389984f,0.674080014f,0.675779998f,0.677160025f,0.678650022f,0.678830028f,0.678629994f,0.678059995f,0.677150011f,0.675989985f,0.675620019f,0.675859988f,0.675899982f,0.675440013f,0.675220013f,0.675549984f,0.676060021f,0.676750004f,0.677619994f,0.678219974f,0.678849995f,0.679440022f,0.678950012f,0.67802f,0.677900016f,0.67821002f,0.678340018f,0.678110003f,0.677299976f,0.677169979f,0.678430021f,0.679340005f,0.679820001f,0.680559993f,0.681540012f,0.681609988f,0.681270003f,0.681349993f,0.682299972f,0.683679998f,0.684119999f,0.683409989f,0.683070004f,0.682889998f,0.682770014f,0.682730019f,0.683040023f,0.683700025f,0.683669984f,0.68362999f,0.68325001f,0.682009995f,0.686529994f,0.683099985f,0.686760008f,0.686760008f,0.685530007f,0.685750008f,0.685959995f,0.686169982f,0.686389983f,0.686600029f,0.686810017f,0.687030017f,0.687240005f,0.687449992f,0.687659979f,0.68787998f,0.688090026f,0.688300014f,0.688510001f,0.688730001f,0.688939989f,0.689149976f,0.689360023f,0.68957001f,0.68979001f,0.689999998f,0.690209985f,0.690419972f,0.690630019f,0.690850019f,0.691060007f,0.691269994f,0.691479981f,0.691690028f,0.691900015f,0.692110002f,0.692319989f,0.692529976f,0.692749977f,0.692960024f,0.693170011f,0.693379998f,0.693589985f,0.693799973f,0.694010019f,0.694220006f,0.694429994f,0.694639981f,0.694850028f,0.695060015f,0.695270002f,0.695479989f,0.695689976f,0.695900023f,0.69611001f,0.696319997f,0.696529984f,0.696739972f,0.696950018f,0.697149992f,0.697359979f,0.697570026f,0.697780013f,0.69799f,0.698199987f,0.698409975f,0.698620021f,0.698819995f,0.699029982f,0.699240029f,0.699450016f,0.699660003f,0.69986999f,0.700070024f,0.700280011f,0.700489998f,0.700699985f,0.700900018f,0.701110005f,0.701319993f,0.70152998f,0.701730013f,0.70194f};
static const float REF_CES13[400] = {0.0433739983f,0.0433650017f,0.0433560014f,0.0433470011f,0.0433380008f,0.0433290005f,0.0433190018f,0.0433100015f,0.0433010012f,0.0432920009f,0.0432830006f,0.0432740003f,0.043265f,0.0432559997f,0.0432469994f,0.0432379991f,0.0432289988f,0.0432199985f,0.0432109982f,0.0432020016f,0.0432690009f,0.0432309993f,0.0431960002f,0.0431639999f,0.0431360006f,0.0431119986f,0.0430920012f,0.0430780016f,0.0430690013f,0.0430659987f,0.0430699997f,0.0430810004f,0.043099001f,0.0431249999f,0.0431590006f,0.0432020016f,0.0432550013f,0.0433170013f,0.043389f,0.0434719995f,0.0435659997f,0.0436719991f,0.0437880009f,0.0439129993f,0.0440470017f,0.0441869982f,0.0443329997f,0.044484999f,0.0446400009f,0.0447969995f,0.0449559987f,0.0451150015f,0.0452720001f,0.0454259999f,0.0455739982f,0.0457150005f,0.0458469987f,0.0459679998f,0.0460759997f,0.0461690016f,0.0462459996f,0.0463050008f,0.0463480018f,0.0463769995f,0.0463970006f,0.0464080013f,0.0464150012f,0.0464189984f,0.0464240015f,0.0464310013f,0.0464439988f,0.0464649983f,0.0464899987f,0.0465149991f,0.0465359986f,0.0465489998f,0.0465489998f,0.0465329997f,0.0464969985f,0.0464349985f,0.0463449992f,0.0462240018f,0.0460780002f,0.0459140018f,0.0457409993f,0.0455669984f,0.0454000011f,0.0452469997f,0.0451169983f,0.0450170003f,0.0449559987f,0.0449410006f,0.0449829996f,0.0450929999f,0.0452799983f,0.0455549993f,0.0459299982f,0.0464139991f,0.047017999f,0.0477520004f,0.0486279987f,0.0496499985f,0.0508100018f,0.0520929992f,0.0534849986f,0.0549699999f,0.0565360002f,0.0581680015f,0.0598509982f,0.0615720004f,0.0633149967f,0.0650670007f,0.0668149963f,0.0685459971f,0.0702470019f,0.071905002f,0.0735059977f,0.0750389993f,0.0764899999f,0.0778459981f,0.0790940002f,0.0802259967f,0.0812460035f,0.082163997f,0.0829899982f,0.0837339982f,0.0844030008f,0.0850090012f,0.0855609998f,0.0860669985f,0.0865370035f,0.0869790018f,0.0873909965f,0.0877690017f,0.0881080031f,0.0884059966f,0.0886569992f,0.0888570026f,0.0890040025f,0.0890920013f,0.0891179964f,0.0890790001f,0.088978f,0.0888210014f,0.0886119977f,0.0883560032f,0.0880569965f,0.0877209976f,0.0873529986f,0.0869570002f,0.0865370035f,0.0860989988f,0.0856409967f,0.0851640031f,0.0846650004f,0.0841440037f,0.0836009979f,0.0830330029f,0.0824410021f,0.0818229988f,0.0811780021f,0.0805070028f,0.0798140019f,0.079106003f,0.0783889964f,0.0776679963f,0.0769509971f,0.0762419999f,0.075548999f,0.074876003f,0.0742319971f,0.0736190006f,0.0730390027f,0.0724909976f,0.0719740018f,0.0714860037f,0.0710280016f,0.0705979988f,0.0701949969f,0.0698190033f,0.069467999f,0.0691429973f,0.0688470006f,0.0685869977f,0.0683669969f,0.0681919977f,0.0680679977f,0.0679989979f,0.0679910034f,0.0680489987f,0.0681779981f,0.0683880001f,0.0687099993f,0.0691780001f,0.0698269978f,0.0706930012f,0.0718099996f,0.0732130036f,0.0749379992f,0.0770189986f,0.0794909969f,0.0823789984f,0.0856600031f,0.0893020034f,0.0932720006f,0.0975380018f,0.102069996f,0.106830001f,0.111790001f,0.116910003f,0.122160003f,0.127519995f,0.132949993f,0.138410002f,0.143879995f,0.149330005f,0.154730007f,0.160040006f,0.165230006f,0.170279995f,0.175160006f,0.17983f,0.184310004f,0.188610002f,0.192750007f,0.196720004f,0.200560004f,0.204270005f,0.207859993f,0.211349994f,0.214760005f,0.218079999f,0.221310005f,0.224450007f,0.227469996f,0.23037f,0.233119994f,0.235730007f,0.238179997f,0.240459993f,0.242540002f,0.244440004f,0.246140003f,0.247679994f,0.249060005f,0.25029999f,0.251410007f,0.252400011f,0.253300011f,0.254110008f,0.25485f,0.25553f,0.256159991f,0.256740004f,0.257290006f,0.257809997f,0.25830999f,0.258789986f,0.259259999f,0.259730011f,0.260210007f,0.260690004f,0.261180013f,0.261680007f,0.262169987f,0.262659997f,0.263139993f,0.263610005f,0.264050007f,0.264479995f,0.264869988f,0.265240014f,0.265570015f,0.265879989f,0.266160011f,0.266409993f,0.266640007f,0.266849995f,0.267040014f,0.267199993f,0.267349988f,0.26749f,0.2676f,0.267699987f,0.267780006f,0.267850012f,0.26789999f,0.267940015f,0.267960012f,0.267960012f,0.267949998f,0.267919987f,0.267879993f,0.267830014f,0.267769992f,0.267699987f,0.267630011f,0.267560005f,0.267479986f,0.267419994f,0.267349988f,0.26730001f,0.267250001f,0.267199993f,0.267170012f,0.267129987f,0.267100006f,0.267060012f,0.267030001f,0.266990006f,0.266959995f,0.266909987f,0.266869992f,0.26681f,0.266750008f,0.266680002f,0.266600013f,0.26651001f,0.266409993f,0.266290009f,0.266160011f,0.266229987f,0.266169995f,0.266110003f,0.266039997f,0.265980005f,0.265920013f,0.265850008f,0.265789986f,0.265729994f,0.265659988f,0.265599996f,0.265540004f,0.265469998f,0.265410006f,0.265350014f,0.265280008f,0.265219986f,0.265159994f,0.265089989f,0.265029997f,0.264970005f,0.264899999f,0.264840007f,0.264780015f,0.264710009f,0.264649987f,0.264589995f,0.264519989f,0.264459997f,0.264400005f,0.26433f,0.264270008f,0.264209986f,0.26414001f,0.264079988f,0.264019996f,0.26394999f,0.263889998f,0.263830006f,0.26376f,0.263700008f,0.263639987f,0.263570011f,0.263509989f,0.263449997f,0.263379991f,0.263319999f,0.263260007f,0.263190001f,0.263130009f,0.263069987f,0.263009995f,0.26293999f,0.262879997f,0.262820005f,0.26275f,0.262690008f,0.262629986f,0.26256001f,0.262499988f,0.262439996f,0.262380004f,0.262309998f,0.262250006f,0.262190014f,0.262120008f,0.262059987f,0.261999995f,0.261940002f,0.261869997f,0.261810005f,0.261750013f,0.261680007f,0.261619985f,0.261559993f,0.261500001f,0.261429995f,0.261370003f,0.261310011f};
static const float REF_CES14[400] = {0.335319996f,0.335619986f,0.335920006f,0.336219996f,0.33653f,0.33682999f,0.33713001f,0.33743f,0.33772999f,0.33803001f,0.338330001f,0.338629991f,0.338930011f,0.339240015f,0.339540005f,0.339839995f,0.340140015f,0.340440005f,0.340750009f,0.341049999f,0.341399997f,0.341630012f,0.341910005f,0.342240006f,0.342610002f,0.343010008f,0.343430012f,0.343849987f,0.344280005f,0.344700009f,0.345099986f,0.345470011f,0.34582001f,0.346150011f,0.346460015f,0.346760005f,0.347050011f,0.347339988f,0.34762001f,0.347909987f,0.348199993f,0.348500013f,0.348809987f,0.349119991f,0.349440008f,0.349759996f,0.350080013f,0.350400001f,0.350710005f,0.351009995f,0.351300001f,0.351579994f,0.351850003f,0.352109998f,0.352369994f,0.352609992f,0.352860004f,0.353089988f,0.353329986f,0.353560001f,0.353799999f,0.354039997f,0.354270011f,0.354510009f,0.354750007f,0.354990005f,0.355239987f,0.355479985f,0.355720013f,0.355960011f,0.35620001f,0.356440008f,0.356680006f,0.35690999f,0.357149988f,0.357380003f,0.357609987f,0.357840002f,0.358060002f,0.358280003f,0.358500004f,0.358709991f,0.358920008f,0.359129995f,0.359340012f,0.359549999f,0.35977f,0.359990001f,0.360219985f,0.36045f,0.360700011f,0.360960007f,0.361220002f,0.361490011f,0.361770004f,0.362049997f,0.36232999f,0.362610012f,0.362879992f,0.363139987f,0.363400012f,0.363649994f,0.363880008f,0.364109993f,0.364329994f,0.364540011f,0.364760011f,0.364969999f,0.365179986f,0.365390003f,0.36559999f,0.365819991f,0.366039991f,0.366270006f,0.366510004f,0.366759986f,0.367020011f,0.367300004f,0.367579997f,0.367879987f,0.368200004f,0.368539989f,0.368889987f,0.369269997f,0.369670004f,0.370090008f,0.370550007f,0.371039987f,0.371549994f,0.372110009f,0.372700006f,0.373329997f,0.374000013f,0.374709994f,0.375459999f,0.376249999f,0.377079993f,0.377950013f,0.378859997f,0.379810005f,0.380800009f,0.381830007f,0.382889986f,0.383969992f,0.385060012f,0.386139989f,0.387210011f,0.388249993f,0.38925001f,0.390210003f,0.391099989f,0.391930014f,0.392679989f,0.393370003f,0.393999994f,0.394569993f,0.39508f,0.395529985f,0.395940006f,0.396290004f,0.396600008f,0.396860003f,0.397089988f,0.397269994f,0.397419989f,0.397529989f,0.397599995f,0.39763999f,0.397659987f,0.39763999f,0.397599995f,0.397540003f,0.397460014f,0.397379994f,0.397320002f,0.397280008f,0.397280008f,0.397329986f,0.397439986f,0.397630006f,0.397899985f,0.398270011f,0.398759991f,0.399370015f,0.40011999f,0.401030004f,0.402099997f,0.403340012f,0.404790014f,0.406430006f,0.408300012f,0.41038999f,0.412690014f,0.415170014f,0.417809993f,0.42058f,0.423449993f,0.42640999f,0.429419994f,0.43246001f,0.435499996f,0.438520014f,0.441509992f,0.444440007f,0.447310001f,0.450089991f,0.452769995f,0.455339998f,0.457780004f,0.460070014f,0.462199986f,0.464159995f,0.465950012f,0.467579991f,0.469069988f,0.470429987f,0.471670002f,0.472790003f,0.473809987f,0.474750012f,0.475600004f,0.476390004f,0.477109998f,0.477770001f,0.478390008f,0.478949994f,0.479470015f,0.479950011f,0.480390012f,0.480809987f,0.48120001f,0.481570005f,0.481920004f,0.482250005f,0.482569993f,0.482859999f,0.483139992f,0.483410001f,0.483649999f,0.483880013f,0.484100014f,0.484299988f,0.484490007f,0.484670013f,0.484829992f,0.484979987f,0.485130012f,0.48526001f,0.485379994f,0.485489994f,0.485599995f,0.485700011f,0.485790014f,0.485890001f,0.485980004f,0.486070007f,0.486180007f,0.486290008f,0.486409992f,0.486550003f,0.486699998f,0.486869991f,0.48706001f,0.487260014f,0.487470001f,0.487679988f,0.487890005f,0.488110006f,0.488310009f,0.488510013f,0.488700002f,0.488869995f,0.489030004f,0.489170015f,0.489300013f,0.489410013f,0.48951f,0.489600003f,0.489679992f,0.489740014f,0.489800006f,0.489850014f,0.489890009f,0.48991999f,0.489960015f,0.489989996f,0.490029991f,0.490079999f,0.490139991f,0.490209997f,0.4903f,0.49041f,0.490530014f,0.490669996f,0.490819991f,0.490979999f,0.491160005f,0.491340011f,0.491519988f,0.491710007f,0.491899997f,0.492089987f,0.492280006f,0.492460012f,0.492650002f,0.492830008f,0.493010014f,0.493189991f,0.493360013f,0.493530005f,0.493699998f,0.493860006f,0.494019985f,0.49417001f,0.494309992f,0.494439989f,0.494560003f,0.494670004f,0.494760007f,0.494839996f,0.494899988f,0.495000005f,0.495090008f,0.495169997f,0.49526f,0.49533999f,0.495429993f,0.495510012f,0.495599985f,0.495680004f,0.495770007f,0.495849997f,0.49594f,0.496019989f,0.496109992f,0.496190012f,0.496280015f,0.496360004f,0.496450007f,0.496529996f,0.496619999f,0.496699989f,0.496789992f,0.496870011f,0.496960014f,0.497040004f,0.497130007f,0.497209996f,0.497299999f,0.497379988f,0.497469991f,0.497550011f,0.497640014f,0.497720003f,0.497810006f,0.497889996f,0.497979999f,0.498059988f,0.498149991f,0.49823001f,0.498320013f,0.498400003f,0.498490006f,0.498569995f,0.498659998f,0.498739988f,0.498829991f,0.49891001f,0.499000013f,0.499080002f,0.499170005f,0.499249995f,0.499339998f,0.499419987f,0.49950999f,0.499590009f,0.499680012f,0.499760002f,0.499850005f,0.499929994f,0.500020027f,0.500100017f,0.50019002f,0.500270009f,0.500360012f,0.500440001f,0.500530005f,0.500609994f,0.500699997f,0.500779986f,0.500869989f,0.500949979f,0.501039982f,0.501119971f,0.501209974f,0.501290023f,0.501380026f,0.501460016f,0.501550019f,0.501630008f};
static const float REF_CES15[400] = {0.169919997f,0.170519993f,0.171130002f,0.171729997f,0.172340006f,0.17295f,0.173559994f,0.174170002f,0.174789995f,0.175400004f,0.176019996f,0.176640004f,0.177259997f,0.177880004f,0.178509995f,0.179130003f,0.179759994f,0.18039f,0.181020007f,0.181659997f,0.18141f,0.182510003f,0.183489993f,0.184389994f,0.185200006f,0.185929999f,0.1866f,0.187209994f,0.187779993f,0.188319996f,0.188830003f,0.189329997f,0.189820006f,0.19032f,0.190830007f,0.191369995f,0.191939995f,0.192560002f,0.193240002f,0.193969995f,0.194790006f,0.195690006f,0.196679994f,0.19777f,0.198970005f,0.200289994f,0.201729998f,0.203309998f,0.205019996f,0.206880003f,0.208900005f,0.211070001f,0.213389993f,0.215829998f,0.218390003f,0.221029997f,0.223739997f,0.226500005f,0.229300007f,0.232109994f,0.234919995f,0.2377f,0.240459993f,0.243190005f,0.245869994f,0.248510003f,0.251100004f,0.253630012f,0.256099999f,0.258509994f,0.260829985f,0.263080001f,0.265249997f,0.267349988f,0.269380003f,0.271349996f,0.27324f,0.275079995f,0.276859999f,0.278589994f,0.28027001f,0.281899989f,0.283490002f,0.285030007f,0.286529988f,0.287990004f,0.289420009f,0.290809989f,0.292169988f,0.293500006f,0.294800013f,0.296070009f,0.297320008f,0.298539996f,0.29975f,0.300929993f,0.302100003f,0.303250015f,0.30438f,0.305500001f,0.306600004f,0.307700008f,0.308789998f,0.309879988f,0.310979992f,0.312079996f,0.313210011f,0.314359993f,0.315530002f,0.316740006f,0.317999989f,0.319290012f,0.32062f,0.32198f,0.32337001f,0.32475999f,0.326169997f,0.327569991f,0.328960001f,0.330339998f,0.33168f,0.333000004f,0.33427f,0.335480005f,0.336620003f,0.337669998f,0.338620007f,0.339459985f,0.34018001f,0.340759993f,0.34119001f,0.34145999f,0.34156999f,0.341529995f,0.341329992f,0.340979993f,0.340490013f,0.339850008f,0.339069992f,0.338160008f,0.337119997f,0.335949987f,0.334670007f,0.333310008f,0.331880003f,0.330410004f,0.328909993f,0.327410012f,0.325929999f,0.324490011f,0.323119998f,0.321819991f,0.320609987f,0.319489986f,0.318470001f,0.317559987f,0.316760004f,0.31606999f,0.315499991f,0.31505999f,0.31476f,0.314579993f,0.314539999f,0.314619988f,0.314819992f,0.315129995f,0.315539986f,0.316049993f,0.316650003f,0.317339987f,0.318100005f,0.31893f,0.319799989f,0.320690006f,0.321570009f,0.322409987f,0.32317999f,0.323870003f,0.324429989f,0.324849993f,0.325100005f,0.325159997f,0.325049996f,0.324809998f,0.324479997f,0.324070007f,0.323639989f,0.323210001f,0.322820008f,0.32249999f,0.32227999f,0.3222f,0.322329998f,0.322710007f,0.323410004f,0.324490011f,0.326020002f,0.328049988f,0.330630004f,0.333849996f,0.337749988f,0.342370003f,0.347660005f,0.353540003f,0.35995999f,0.366820008f,0.374049991f,0.381579995f,0.389349997f,0.39726001f,0.405250013f,0.413260013f,0.421229988f,0.429129988f,0.436919987f,0.444570005f,0.452030003f,0.459280014f,0.466280013f,0.472970009f,0.479339987f,0.485359997f,0.491019994f,0.496360004f,0.50138998f,0.506139994f,0.510630012f,0.514880002f,0.518899977f,0.522719979f,0.526369989f,0.529850006f,0.533179998f,0.536360025f,0.539390028f,0.542270005f,0.545019984f,0.547630012f,0.550109982f,0.552460015f,0.554690003f,0.556800008f,0.558790028f,0.560679972f,0.562479973f,0.56418997f,0.565819979f,0.567380011f,0.568880022f,0.57032001f,0.571720004f,0.573080003f,0.574410021f,0.575709999f,0.576969981f,0.578199983f,0.579400003f,0.580579996f,0.581730008f,0.582849979f,0.583949983f,0.585030019f,0.586080015f,0.587119997f,0.588129997f,0.589110017f,0.590070009f,0.591009974f,0.591920018f,0.592809975f,0.593670011f,0.594500005f,0.595309973f,0.596109986f,0.596880019f,0.597649992f,0.598420024f,0.599179983f,0.599950016f,0.600719988f,0.601499975f,0.602310002f,0.603120029f,0.603950024f,0.604789972f,0.605629981f,0.606490016f,0.607349992f,0.608219981f,0.609099984f,0.609969974f,0.610840023f,0.611720026f,0.612590015f,0.613449991f,0.614310026f,0.615159988f,0.615999997f,0.616829991f,0.617640018f,0.618430018f,0.619210005f,0.619970024f,0.620710015f,0.621439993f,0.62213999f,0.62282002f,0.623480022f,0.624119997f,0.624740005f,0.625329971f,0.625899971f,0.626450002f,0.626980007f,0.627470016f,0.627950013f,0.628400028f,0.628820002f,0.629220009f,0.629589975f,0.629930019f,0.630810022f,0.63132f,0.631829977f,0.63233f,0.632839978f,0.633340001f,0.633849978f,0.634350002f,0.634859979f,0.635360003f,0.63586998f,0.636370003f,0.636870027f,0.637380004f,0.637880027f,0.638379991f,0.638880014f,0.639379978f,0.639890015f,0.640389979f,0.640890002f,0.641390026f,0.641889989f,0.642390013f,0.642889977f,0.64339f,0.643890023f,0.644389987f,0.64489001f,0.64538002f,0.645879984f,0.646380007f,0.646879971f,0.647369981f,0.647870004f,0.648370028f,0.648859978f,0.649360001f,0.649850011f,0.650349975f,0.650839984f,0.651340008f,0.651830018f,0.652320027f,0.652819991f,0.653310001f,0.653800011f,0.654299974f,0.654789984f,0.655279994f,0.655770004f,0.656260014f,0.656750023f,0.657239974f,0.657729983f,0.658219993f,0.658710003f,0.659200013f,0.659690022f,0.660179973f,0.660669982f,0.661149979f,0.661639988f,0.662129998f,0.662620008f,0.663100004f,0.663590014f,0.66407001f,0.66456002f,0.665040016f,0.665530026f,0.666010022f,0.666499972f,0.666980028f,0.667460024f,0.667949975f,0.668429971f,0.668910027f,0.669390023f};
static const float REF_CES16[400] = {0.0346589983f,0.0347989984f,0.034940999f,0.0350820012f,0.0352240019f,0.0353670008f,0.0355099998f,0.0356540009f,0.0357990004f,0.0359430015f,0.0360889994f,0.0362350009f,0.0363820009f,0.0365290008f,0.0366769992f,0.0368250012f,0.0369740017f,0.0371240005f,0.0372739993f,0.0374240018f,0.0376700014f,0.0377780013f,0.0378950015f,0.0380199999f,0.0381530002f,0.0382939987f,0.0384420007f,0.0385969989f,0.0387590006f,0.0389260016f,0.0390990004f,0.0392769985f,0.0394599997f,0.0396470018f,0.039836999f,0.040031001f,0.0402290002f,0.0404280014f,0.0406300016f,0.0408339985f,0.0410390012f,0.0412449986f,0.0414539985f,0.0416680016f,0.0418899991f,0.0421210006f,0.0423629992f,0.0426190011f,0.0428900011f,0.04318f,0.0434890017f,0.0438189991f,0.0441690013f,0.0445359983f,0.0449169986f,0.0453100018f,0.045713f,0.0461230017f,0.0465370007f,0.0469530001f,0.0473680012f,0.0477810018f,0.0481930003f,0.0486049987f,0.0490199998f,0.0494379997f,0.0498629995f,0.050294999f,0.050737001f,0.05119f,0.0516560003f,0.0521360002f,0.0526309982f,0.053137999f,0.053656999f,0.0541869998f,0.0547269993f,0.0552750006f,0.0558319986f,0.0563950017f,0.0569639988f,0.057537999f,0.0581180006f,0.0587019995f,0.0592929982f,0.0598910004f,0.0604950003f,0.0611060001f,0.0617250018f,0.0623520017f,0.0629869998f,0.0636309981f,0.0642839968f,0.0649439991f,0.065609999f,0.0662840009f,0.0669630021f,0.0676470026f,0.0683360025f,0.0690290034f,0.0697249994f,0.0704239979f,0.0711240023f,0.0718249977f,0.0725260004f,0.0732259974f,0.0739229992f,0.0746160001f,0.0753059983f,0.0759899989f,0.0766670033f,0.0773369968f,0.078001f,0.078658998f,0.0793130025f,0.0799629986f,0.080610998f,0.0812579989f,0.0819040015f,0.0825510025f,0.0832000002f,0.0838520005f,0.0845049992f,0.0851610005f,0.0858160034f,0.086473003f,0.0871279985f,0.0877830014f,0.088436f,0.0890860036f,0.0897340029f,0.090377003f,0.091016002f,0.0916479975f,0.0922710001f,0.0928850025f,0.0934880003f,0.0940779969f,0.0946540013f,0.0952140018f,0.0957570001f,0.0962819979f,0.0967909992f,0.0972850025f,0.0977680013f,0.0982419997f,0.0987090021f,0.0991720036f,0.0996320024f,0.100089997f,0.100560002f,0.101020001f,0.101489998f,0.101970002f,0.102449998f,0.102930002f,0.103409998f,0.1039f,0.104379997f,0.104869999f,0.105350003f,0.105839998f,0.106320001f,0.106810004f,0.10729f,0.107770003f,0.10825f,0.108730003f,0.109200001f,0.109679997f,0.110150002f,0.110619999f,0.111089997f,0.111560002f,0.112029999f,0.112499997f,0.112970002f,0.11344f,0.113909997f,0.114380002f,0.11485f,0.115319997f,0.115800001f,0.116290003f,0.116789997f,0.117299996f,0.117839999f,0.1184f,0.118989997f,0.119599998f,0.12026f,0.120949998f,0.121679999f,0.12246f,0.123280004f,0.124150001f,0.125070006f,0.126049995f,0.127090007f,0.128179997f,0.129339993f,0.130569994f,0.131860003f,0.133230001f,0.134680003f,0.136219993f,0.137830004f,0.13955f,0.141350001f,0.143260002f,0.145270005f,0.147389993f,0.149609998f,0.151950002f,0.154400006f,0.156959996f,0.159620002f,0.162400007f,0.165289998f,0.168290004f,0.171399996f,0.174630001f,0.177959993f,0.181390002f,0.184909999f,0.188519999f,0.192210004f,0.195969999f,0.1998f,0.203700006f,0.207640007f,0.21164f,0.215690002f,0.219779998f,0.223920003f,0.228100002f,0.232329994f,0.236609995f,0.240930006f,0.245289996f,0.249699995f,0.254150003f,0.258639991f,0.263150007f,0.267679989f,0.272229999f,0.276769996f,0.281309992f,0.285840005f,0.29034999f,0.294829994f,0.299270004f,0.303669989f,0.308050007f,0.312379986f,0.316689998f,0.320969999f,0.325219989f,0.329439998f,0.333629996f,0.337799996f,0.341949999f,0.346080005f,0.350199997f,0.354299992f,0.358410001f,0.362509996f,0.366620004f,0.37075001f,0.37489f,0.379049987f,0.383230001f,0.387430012f,0.391640007f,0.395839989f,0.400029987f,0.404190004f,0.40832001f,0.412400007f,0.416429996f,0.42039001f,0.424279988f,0.428090006f,0.431840003f,0.435530007f,0.439170003f,0.442759991f,0.4463f,0.449809998f,0.453289986f,0.456730008f,0.460159987f,0.463569999f,0.466960013f,0.470340014f,0.473710001f,0.47705999f,0.48041001f,0.483749986f,0.487089992f,0.490420014f,0.49375999f,0.497090012f,0.50041002f,0.503729999f,0.50703001f,0.510309994f,0.513570011f,0.51681f,0.520020008f,0.523190022f,0.526329994f,0.529429972f,0.532490015f,0.53549999f,0.538460016f,0.541369975f,0.544219971f,0.547010005f,0.549730003f,0.552389979f,0.556110024f,0.559099972f,0.562080026f,0.565060019f,0.568040013f,0.571009994f,0.57397002f,0.576929986f,0.579890013f,0.582830012f,0.585780025f,0.58871001f,0.591639996f,0.594569981f,0.597479999f,0.600390017f,0.603290021f,0.606190026f,0.609080017f,0.611959994f,0.614830017f,0.617699981f,0.620549977f,0.623399973f,0.626240015f,0.629069984f,0.631889999f,0.634710014f,0.637510002f,0.640299976f,0.64309001f,0.64586997f,0.648630023f,0.651390016f,0.654129982f,0.656870008f,0.659590006f,0.662310004f,0.665009975f,0.667699993f,0.67039001f,0.67306f,0.675719976f,0.678369999f,0.680999994f,0.68362999f,0.686240017f,0.688849986f,0.691439986f,0.694010019f,0.696579993f,0.699140012f,0.701680005f,0.704209983f,0.706719995f,0.709230006f,0.71171999f,0.71420002f,0.716660023f,0.719120026f,0.721560001f,0.723990023f,0.726400018f,0.728799999f,0.731190026f,0.733560026f,0.735920012f,0.738269985f,0.74059999f,0.742919981f,0.745230019f,0.74752003f,0.749800026f,0.75207001f,0.754320025f,0.756560028f,0.758780003f,0.760990024f,0.763189971f};
static const float REF_CES17[400] = {0.0307979994f,0.0312450007f,0.0316979997f,0.0321579985f,0.0326239988f,0.0330960006f,0.0335760005f,0.0340620019f,0.0345540009f,0.0350539982f,0.0355600007f,0.0360740013f,0.0365950018f,0.0371229984f,0.0376579985f,0.0382010005f,0.0387509987f,0.0393080004f,0.0398739986f,0.0404470004f,0.0403099991f,0.0412250012f,0.0420939997f,0.0429169983f,0.0436960012f,0.0444319993f,0.0451259986f,0.045779001f,0.0463929996f,0.0469669998f,0.0475049987f,0.0480049998f,0.0484700017f,0.0489020012f,0.0492990017f,0.0496650003f,0.0500000007f,0.0503050014f,0.0505819991f,0.0508299991f,0.0510529988f,0.0512499996f,0.0514260009f,0.0515840016f,0.0517290011f,0.0518639982f,0.0519930013f,0.0521200001f,0.0522500016f,0.0523849986f,0.0525310002f,0.0526899993f,0.0528619997f,0.0530479997f,0.053247001f,0.0534580015f,0.0536819994f,0.0539189987f,0.0541669987f,0.054428f,0.054699f,0.0549819991f,0.055275999f,0.0555820018f,0.0558990017f,0.0562280007f,0.0565689988f,0.0569210015f,0.0572849996f,0.057661999f,0.0580499992f,0.0584510006f,0.0588629991f,0.0592859983f,0.059719f,0.0601609983f,0.0606120005f,0.0610699989f,0.0615359992f,0.0620080009f,0.0624849983f,0.0629670024f,0.0634529963f,0.0639410019f,0.0644299984f,0.0649190024f,0.0654070005f,0.0658909976f,0.0663710013f,0.0668459982f,0.0673149973f,0.0677750036f,0.0682270005f,0.0686689988f,0.0691019967f,0.0695239976f,0.0699350014f,0.0703340024f,0.0707210004f,0.0710939988f,0.0714540035f,0.0717990026f,0.0721310005f,0.0724510029f,0.0727579966f,0.0730549991f,0.0733420029f,0.073619999f,0.073890999f,0.074153997f,0.0744109973f,0.0746619999f,0.0749069974f,0.0751440004f,0.075372003f,0.0755899996f,0.0757960007f,0.0759899989f,0.0761689991f,0.0763330013f,0.0764800012f,0.0766099989f,0.076725997f,0.0768290013f,0.0769229978f,0.0770109966f,0.0770960003f,0.0771809965f,0.0772690028f,0.0773629993f,0.0774660036f,0.0775799975f,0.0777070001f,0.0778469965f,0.0780000016f,0.0781679973f,0.0783500001f,0.0785479993f,0.0787620023f,0.0789920017f,0.0792400017f,0.0795060024f,0.0797960013f,0.0801130012f,0.0804649964f,0.080854997f,0.0812899992f,0.0817739964f,0.0823130012f,0.082911998f,0.0835760012f,0.0843119994f,0.0851259977f,0.0860240012f,0.087015003f,0.0881059989f,0.0893030018f,0.0906149969f,0.0920469984f,0.0936079994f,0.0953050032f,0.0971420035f,0.0991159976f,0.101219997f,0.10345f,0.105800003f,0.108269997f,0.11084f,0.113519996f,0.116290003f,0.119159997f,0.122100003f,0.125119999f,0.128209993f,0.131329998f,0.134499997f,0.137679994f,0.140880004f,0.144069999f,0.147249997f,0.150399998f,0.153510004f,0.156570002f,0.159580007f,0.162530005f,0.165409997f,0.168219998f,0.170949996f,0.173590004f,0.176139995f,0.17859f,0.180930004f,0.183170006f,0.185299993f,0.187340006f,0.189280003f,0.191129997f,0.192880005f,0.194539994f,0.196119994f,0.197610006f,0.19901f,0.200350001f,0.201609999f,0.202810004f,0.203960001f,0.205060005f,0.206119999f,0.207149997f,0.208149999f,0.209140003f,0.210109994f,0.211070001f,0.211999997f,0.212919995f,0.213809997f,0.214670002f,0.215489998f,0.21627f,0.217020005f,0.217710003f,0.218360007f,0.218950003f,0.219500005f,0.219980001f,0.220410004f,0.220789999f,0.221100003f,0.221349999f,0.221530005f,0.221660003f,0.221709996f,0.221709996f,0.221660003f,0.221579999f,0.22146f,0.221320003f,0.221180007f,0.221029997f,0.22089f,0.220770001f,0.22067f,0.220620006f,0.220620006f,0.220679998f,0.220809996f,0.221029997f,0.221349999f,0.221790001f,0.222340003f,0.223030001f,0.223869994f,0.224859998f,0.226009995f,0.227329999f,0.228809997f,0.23048f,0.232319996f,0.234349996f,0.236579999f,0.238999993f,0.241630003f,0.244479999f,0.247569993f,0.250910014f,0.254509985f,0.258390009f,0.262569994f,0.267069995f,0.271880001f,0.277040005f,0.282559991f,0.288419992f,0.294620007f,0.301149994f,0.307999998f,0.315160006f,0.322620004f,0.330370009f,0.33840999f,0.34672001f,0.355300009f,0.364089996f,0.373059988f,0.382169992f,0.391380012f,0.400629997f,0.409889996f,0.419120014f,0.428270012f,0.437299997f,0.446170002f,0.454890013f,0.463450015f,0.471879989f,0.480159998f,0.488319993f,0.496360004f,0.504270017f,0.512080014f,0.519789994f,0.527400017f,0.53490001f,0.542280018f,0.549539983f,0.556659997f,0.563619971f,0.570429981f,0.577059984f,0.583509982f,0.589770019f,0.59582001f,0.60165f,0.607259989f,0.61263001f,0.617749989f,0.622609973f,0.627200007f,0.631510019f,0.635529995f,0.639240026f,0.647780001f,0.652949989f,0.658079982f,0.663179994f,0.668229997f,0.67325002f,0.678229988f,0.683170021f,0.688069999f,0.692920029f,0.697740018f,0.702509999f,0.707239985f,0.711920023f,0.716560006f,0.721149981f,0.725700021f,0.730199993f,0.734650016f,0.739049971f,0.743409991f,0.747720003f,0.75199002f,0.756200016f,0.760370016f,0.764479995f,0.768549979f,0.772570014f,0.776530027f,0.780449986f,0.784319997f,0.788139999f,0.791909993f,0.795629978f,0.799300015f,0.802919984f,0.806490004f,0.810010016f,0.813489974f,0.816910028f,0.820280015f,0.823610008f,0.826889992f,0.830110013f,0.833299994f,0.836430013f,0.839510024f,0.84254998f,0.845539987f,0.84849f,0.851390004f,0.85424f,0.857039988f,0.859809995f,0.862519979f,0.865199983f,0.867820024f,0.870410025f,0.872950017f,0.875450015f,0.877910018f,0.880320013f,0.882690012f,0.885029972f,0.887319982f,0.889569998f,0.891780019f,0.893959999f,0.896089971f,0.898190022f,0.900250018f,0.902270019f,0.90425998f,0.906210005f,0.908119977f,0.910000026f,0.911840022f,0.913649976f,0.915430009f};
static const float REF_CES18[400] = {0.0649840012f,0.0653659999f,0.0657500029f,0.0661360025f,0.066523999f,0.066914998f,0.0673070028f,0.0677020028f,0.0680989996f,0.0684970021f,0.0688989982f,0.0693020001f,0.0697069988f,0.070115f,0.070524998f,0.0709370002f,0.0713509992f,0.0717670023f,0.0721860006f,0.0726070032f,0.0731000006f,0.0734170005f,0.0738160014f,0.0742850006f,0.0748120025f,0.0753839985f,0.0759890005f,0.0766159967f,0.0772510022f,0.0778829977f,0.0785000026f,0.0790920034f,0.0796620026f,0.0802149996f,0.0807579979f,0.0812959969f,0.0818329975f,0.0823770016f,0.0829320028f,0.0835049972f,0.0841000006f,0.0847230032f,0.0853750035f,0.0860579982f,0.0867730007f,0.0875210017f,0.0883039981f,0.089120999f,0.0899759978f,0.0908680037f,0.0917999968f,0.0927710012f,0.0937770009f,0.0948129967f,0.0958750024f,0.0969569981f,0.0980549976f,0.0991630033f,0.100280002f,0.101389997f,0.102499999f,0.103600003f,0.10469f,0.105769999f,0.10684f,0.107890002f,0.10892f,0.10994f,0.110950001f,0.111929998f,0.112899996f,0.113849998f,0.114770003f,0.11569f,0.116580002f,0.117470004f,0.118349999f,0.119220003f,0.120080002f,0.12094f,0.121799998f,0.122660004f,0.123520002f,0.12438f,0.125249997f,0.126110002f,0.126969993f,0.127829999f,0.128690004f,0.129549995f,0.130400002f,0.131249994f,0.132100001f,0.132949993f,0.133809999f,0.134660006f,0.135519996f,0.136380002f,0.137250006f,0.138119996f,0.138999999f,0.13989f,0.140790001f,0.1417f,0.142619997f,0.143549994f,0.144490004f,0.145449996f,0.146420002f,0.147400007f,0.148399994f,0.149409994f,0.150440007f,0.151480004f,0.15253f,0.153589994f,0.154660001f,0.155739993f,0.156819999f,0.157910004f,0.158999994f,0.160089999f,0.161180004f,0.162249997f,0.163299993f,0.164330006f,0.165319994f,0.166270003f,0.167170003f,0.168019995f,0.168799996f,0.169510007f,0.170149997f,0.170719996f,0.171230003f,0.171660006f,0.172020003f,0.172319993f,0.172549993f,0.172710001f,0.172800004f,0.172830001f,0.172800004f,0.17272f,0.172600001f,0.172460005f,0.172289997f,0.172110006f,0.17193f,0.171759993f,0.171599999f,0.171470001f,0.17137f,0.171309993f,0.171289995f,0.171320006f,0.171419993f,0.171570003f,0.171800002f,0.172110006f,0.172499999f,0.172979996f,0.173539996f,0.174170002f,0.174850002f,0.175589994f,0.176359996f,0.177159995f,0.177970007f,0.178790003f,0.1796f,0.180399999f,0.181170002f,0.181909993f,0.182620004f,0.183290005f,0.183909997f,0.184479997f,0.184990004f,0.185430005f,0.185800001f,0.186100006f,0.186330006f,0.186529994f,0.186690003f,0.186849996f,0.187020004f,0.187209994f,0.187439993f,0.187729999f,0.188099995f,0.188559994f,0.189129993f,0.189840004f,0.190689996f,0.191699997f,0.192900002f,0.194299996f,0.195920005f,0.197779998f,0.199900001f,0.20228f,0.204919994f,0.207780004f,0.21085f,0.214090005f,0.217500001f,0.221029997f,0.224680007f,0.228410006f,0.232199997f,0.236029997f,0.239889994f,0.243740007f,0.247590005f,0.251399994f,0.255169988f,0.258870006f,0.262479991f,0.266000003f,0.269400001f,0.272670001f,0.275810003f,0.278820008f,0.281720012f,0.284500003f,0.287169993f,0.28975001f,0.292219996f,0.29460001f,0.296900004f,0.299109995f,0.301250011f,0.303310007f,0.305290014f,0.307200015f,0.309029996f,0.310799986f,0.3125f,0.314130008f,0.315699995f,0.317209989f,0.318650007f,0.320050001f,0.32141f,0.322719991f,0.324000001f,0.32525f,0.326480001f,0.327699989f,0.328900009f,0.3301f,0.331290007f,0.332480013f,0.33366999f,0.334859997f,0.336050004f,0.337229997f,0.338420004f,0.33961001f,0.340799987f,0.341989994f,0.343190014f,0.344379991f,0.345560014f,0.346740007f,0.347900003f,0.349049985f,0.350190014f,0.351310015f,0.352400005f,0.353469998f,0.354519993f,0.355549991f,0.356570005f,0.357580006f,0.358579993f,0.35958001f,0.360579997f,0.361589998f,0.362599999f,0.363629997f,0.364659995f,0.36570999f,0.366769999f,0.367830008f,0.368900001f,0.369969994f,0.37105f,0.372119993f,0.373199999f,0.374280006f,0.375349998f,0.376419991f,0.37748f,0.378529996f,0.379570007f,0.380600005f,0.38161999f,0.382620007f,0.383599997f,0.384559989f,0.385509998f,0.386440009f,0.38736999f,0.388289988f,0.389219999f,0.390139997f,0.391079992f,0.392030001f,0.393000007f,0.39399001f,0.394980013f,0.395960003f,0.396910012f,0.397830009f,0.398680001f,0.399459988f,0.400150001f,0.400739998f,0.401199996f,0.401939988f,0.402579993f,0.403210014f,0.403840005f,0.40448001f,0.405110002f,0.405750006f,0.406379998f,0.407020003f,0.407649994f,0.408289999f,0.408930004f,0.409559995f,0.4102f,0.410840005f,0.411469996f,0.412110001f,0.412750006f,0.413390011f,0.414029986f,0.414669991f,0.415309995f,0.41595f,0.416590005f,0.41723001f,0.417869985f,0.41850999f,0.419149995f,0.41979f,0.420430005f,0.421070009f,0.421710014f,0.422360003f,0.423000008f,0.423640013f,0.424290001f,0.424930006f,0.425570011f,0.42622f,0.426860005f,0.42750001f,0.428149998f,0.428790003f,0.429439992f,0.430079997f,0.430729985f,0.431380004f,0.432020009f,0.432669997f,0.433319986f,0.433959991f,0.434610009f,0.435259998f,0.435900003f,0.436549991f,0.43720001f,0.437849998f,0.438499987f,0.439139992f,0.43979001f,0.440439999f,0.441089988f,0.441740006f,0.442389995f,0.443040013f,0.443690002f,0.444339991f,0.444990009f,0.445639998f,0.446289986f,0.446940005f,0.447589993f,0.448240012f,0.448890001f,0.449550003f,0.450199991f,0.45085001f,0.451499999f,0.452149987f};
static const float REF_CES19[400] = {0.109269999f,0.109789997f,0.110320002f,0.11084f,0.111369997f,0.111900002f,0.112429999f,0.112970002f,0.113499999f,0.114040002f,0.114579998f,0.11513f,0.115670003f,0.116219997f,0.116769999f,0.11733f,0.117880002f,0.118440002f,0.119000003f,0.119560003f,0.120200001f,0.120640002f,0.121189997f,0.121799998f,0.122469999f,0.123159997f,0.123839997f,0.124480002f,0.125049993f,0.125540003f,0.1259f,0.126120001f,0.126210004f,0.126190007f,0.126080006f,0.125890002f,0.125650004f,0.125369996f,0.125070006f,0.124779999f,0.124499999f,0.124260001f,0.124049999f,0.12387f,0.123719998f,0.12359f,0.123489998f,0.123400003f,0.123319998f,0.123259999f,0.123199999f,0.123149998f,0.123089999f,0.123049997f,0.123010002f,0.122979999f,0.122960001f,0.122950003f,0.122950003f,0.12297f,0.123000003f,0.123049997f,0.123099998f,0.123170003f,0.12325f,0.123340003f,0.123429999f,0.123520002f,0.123620003f,0.123709999f,0.123800002f,0.123879999f,0.123960003f,0.12404f,0.124109998f,0.124169998f,0.124240004f,0.124300003f,0.124370001f,0.124430001f,0.124499999f,0.124569997f,0.124640003f,0.124710001f,0.124770001f,0.124839999f,0.124899998f,0.124959998f,0.125009999f,0.125060007f,0.125100002f,0.125129998f,0.125159994f,0.125170007f,0.125180006f,0.125180006f,0.125180006f,0.125170007f,0.125149995f,0.125129998f,0.125100002f,0.125070006f,0.125039995f,0.125009999f,0.125f,0.125009999f,0.125049993f,0.125119999f,0.125229999f,0.125389993f,0.125599995f,0.125870004f,0.126220003f,0.126680002f,0.127269998f,0.128010005f,0.128920004f,0.130030006f,0.131369993f,0.132949993f,0.134800002f,0.136930004f,0.139339998f,0.142010003f,0.144920006f,0.148049995f,0.151380002f,0.154899999f,0.158590004f,0.162430003f,0.1664f,0.170489997f,0.17464f,0.178829998f,0.182999998f,0.187110007f,0.191119999f,0.194969997f,0.198630005f,0.202059999f,0.205200002f,0.20803f,0.210559994f,0.212809995f,0.214829996f,0.216619998f,0.218229994f,0.219669998f,0.220980003f,0.222179994f,0.223299995f,0.224370003f,0.225429997f,0.226539999f,0.227730006f,0.229049996f,0.230560005f,0.23229f,0.234290004f,0.236609995f,0.239299998f,0.242400005f,0.245930001f,0.249919996f,0.254390001f,0.259359986f,0.264849991f,0.270889997f,0.277500004f,0.284689993f,0.292499989f,0.30092001f,0.309899986f,0.319339991f,0.329160005f,0.339280009f,0.349620014f,0.360080004f,0.370590001f,0.381049991f,0.391400009f,0.401540011f,0.411440015f,0.421050012f,0.430330008f,0.439249992f,0.447750002f,0.45581001f,0.463380009f,0.470429987f,0.476900011f,0.48278001f,0.488090008f,0.492859989f,0.497150004f,0.500970006f,0.504379988f,0.50740999f,0.510100007f,0.512480021f,0.514599979f,0.516489983f,0.518159986f,0.519649982f,0.520950019f,0.522099972f,0.523100019f,0.523970008f,0.524739981f,0.525409997f,0.526000023f,0.526530027f,0.52700001f,0.527419984f,0.52779001f,0.528100014f,0.528370023f,0.528590024f,0.52877003f,0.528900027f,0.528999984f,0.529060006f,0.529089987f,0.529089987f,0.52907002f,0.529020011f,0.52895999f,0.52888f,0.528789997f,0.528699994f,0.528599977f,0.528500021f,0.528400004f,0.528299987f,0.528199971f,0.528100014f,0.527989984f,0.527869999f,0.527760029f,0.527629972f,0.527499974f,0.527360022f,0.527220011f,0.527069986f,0.526910007f,0.526759982f,0.526600003f,0.526440024f,0.526289999f,0.526139975f,0.526000023f,0.525860012f,0.525730014f,0.525600016f,0.525470018f,0.525340021f,0.525210023f,0.525070012f,0.524919987f,0.524770021f,0.524600029f,0.524420023f,0.524230003f,0.524020016f,0.523819983f,0.523609996f,0.523400009f,0.523190022f,0.522979975f,0.522790015f,0.522599995f,0.522430003f,0.52226001f,0.522109985f,0.52196002f,0.521809995f,0.521669984f,0.521529973f,0.521390021f,0.52125001f,0.521099985f,0.520940006f,0.520780027f,0.520619988f,0.520449996f,0.520290017f,0.520120025f,0.519959986f,0.519800007f,0.519640028f,0.519500017f,0.519360006f,0.519240022f,0.519110024f,0.51898998f,0.518869996f,0.518750012f,0.518620014f,0.518490016f,0.518350005f,0.51819998f,0.518040001f,0.517859995f,0.517679989f,0.517490029f,0.517289996f,0.517080009f,0.516860008f,0.516650021f,0.516420007f,0.516200006f,0.515980005f,0.515749991f,0.51552999f,0.515320003f,0.515120029f,0.514940023f,0.514769971f,0.514620006f,0.514500022f,0.514400005f,0.514240026f,0.514110029f,0.513970017f,0.51384002f,0.513700008f,0.513570011f,0.513429999f,0.513300002f,0.51315999f,0.513029993f,0.512889981f,0.512759984f,0.512619972f,0.512489974f,0.512350023f,0.512220025f,0.512080014f,0.511950016f,0.511810005f,0.511680007f,0.511539996f,0.511409998f,0.511269987f,0.511139989f,0.510999978f,0.51086998f,0.510730028f,0.510599971f,0.510460019f,0.510330021f,0.51019001f,0.510049999f,0.509920001f,0.50977999f,0.509649992f,0.509509981f,0.509379983f,0.509239972f,0.509109974f,0.508970022f,0.508840024f,0.508700013f,0.508570015f,0.508430004f,0.508300006f,0.508159995f,0.508029997f,0.507889986f,0.507759988f,0.507619977f,0.507489979f,0.507350028f,0.50721997f,0.507080019f,0.506950021f,0.506810009f,0.506680012f,0.50654f,0.506410003f,0.506269991f,0.506139994f,0.505999982f,0.505869985f,0.505729973f,0.505599976f,0.505460024f,0.505330026f,0.505190015f,0.505060017f,0.504920006f,0.504790008f,0.504649997f,0.504519999f,0.504379988f,0.50424999f,0.504109979f,0.503979981f,0.503840029f,0.503709972f};
static const float REF_CES20[400] = {0.0250860006f,0.0254599992f,0.0258389991f,0.0262230001f,0.0266130008f,0.0270089991f,0.0274110008f,0.0278179999f,0.0282310005f,0.0286500007f,0.0290750004f,0.0295059998f,0.0299440008f,0.0303869992f,0.0308369994f,0.0312939994f,0.0317570008f,0.0322269984f,0.0327030011f,0.0331859998f,0.0319710001f,0.0332319997f,0.0343779996f,0.0354119986f,0.036332f,0.037140999f,0.0378369987f,0.0384230018f,0.0388979986f,0.0392620005f,0.0395170003f,0.0396629982f,0.0397000015f,0.0396290012f,0.039450001f,0.0391639993f,0.0387709998f,0.0382709987f,0.0376669988f,0.0369560011f,0.0361419991f,0.0352259986f,0.0342269987f,0.0331650004f,0.0320609994f,0.0309350006f,0.0298100002f,0.0287040006f,0.0276389997f,0.0266369991f,0.0257159993f,0.0248939991f,0.0241640005f,0.0235149991f,0.0229369998f,0.0224200003f,0.0219509993f,0.0215210002f,0.0211190004f,0.0207339991f,0.0203540009f,0.0199740008f,0.0195979998f,0.019235f,0.0188970007f,0.0185899995f,0.0183259994f,0.0181120001f,0.0179590005f,0.0178759992f,0.0178720001f,0.0179570001f,0.0181430001f,0.0184409991f,0.0188650005f,0.0194259994f,0.0201370008f,0.0210100003f,0.0220570005f,0.0232909992f,0.0247230008f,0.0263710003f,0.0282639991f,0.0304390006f,0.0329300016f,0.035774f,0.0390040018f,0.0426560007f,0.0467649996f,0.0513669997f,0.0564960018f,0.0621769987f,0.0683929995f,0.0751150027f,0.0823130012f,0.0899609998f,0.0980300009f,0.106490001f,0.115319997f,0.124480002f,0.133939996f,0.143669993f,0.153549999f,0.16347f,0.173280001f,0.182879999f,0.192129999f,0.200920001f,0.209110007f,0.216580003f,0.223199993f,0.228890002f,0.233679995f,0.237619996f,0.240769997f,0.243200004f,0.244969994f,0.246140003f,0.246759996f,0.246910006f,0.246639997f,0.246000007f,0.245049998f,0.243829995f,0.242359996f,0.240700006f,0.238890007f,0.236949995f,0.234940007f,0.232889995f,0.230849996f,0.228839993f,0.226879999f,0.224950001f,0.223059997f,0.221220002f,0.219400004f,0.21762f,0.215880007f,0.214159995f,0.212479994f,0.210820004f,0.209199995f,0.207609996f,0.206060007f,0.204549998f,0.203079998f,0.201649994f,0.200279996f,0.198949993f,0.197689995f,0.196480006f,0.195329994f,0.194260001f,0.193259999f,0.192340001f,0.191520005f,0.190789998f,0.190170005f,0.189649999f,0.189250007f,0.18897f,0.188810006f,0.188779995f,0.188889995f,0.189129993f,0.189520001f,0.190040007f,0.190720007f,0.191540003f,0.192519993f,0.193660006f,0.194949999f,0.196400002f,0.197999999f,0.199739993f,0.201629996f,0.203669995f,0.205840006f,0.208149999f,0.210590005f,0.213170007f,0.215880007f,0.218700007f,0.221640006f,0.224700004f,0.227860004f,0.231120005f,0.234479994f,0.237939999f,0.241469994f,0.245089993f,0.248809993f,0.252629995f,0.256559998f,0.260619998f,0.264809996f,0.269149989f,0.273649991f,0.278320014f,0.283170015f,0.288219988f,0.293480009f,0.298970014f,0.304720014f,0.310750008f,0.317079991f,0.323729992f,0.330729991f,0.338079989f,0.345829993f,0.353969991f,0.362520009f,0.371450007f,0.380769998f,0.390450001f,0.4005f,0.410899997f,0.421640009f,0.432720006f,0.44411999f,0.455830008f,0.467799991f,0.479950011f,0.492229998f,0.504580021f,0.516929984f,0.529209971f,0.541369975f,0.553340018f,0.565060019f,0.576470017f,0.587539971f,0.598259985f,0.608590007f,0.618520021f,0.628009975f,0.637059987f,0.645630002f,0.653710008f,0.661270022f,0.668299973f,0.674820006f,0.680859983f,0.686460018f,0.691659987f,0.696479976f,0.70095998f,0.705139995f,0.709039986f,0.712700009f,0.716159999f,0.719420016f,0.722500026f,0.725419998f,0.728179991f,0.730809987f,0.733309984f,0.735700011f,0.737999976f,0.740209997f,0.742340028f,0.744419992f,0.746439993f,0.748409986f,0.750349998f,0.752260029f,0.754149973f,0.75602001f,0.757889986f,0.759769976f,0.761650026f,0.763549984f,0.765479982f,0.767419994f,0.769389987f,0.771380007f,0.773410022f,0.775479972f,0.777580023f,0.779720008f,0.781910002f,0.784139991f,0.786390007f,0.788680017f,0.790979981f,0.793290019f,0.795620024f,0.797940016f,0.800260007f,0.802559972f,0.804849982f,0.807120025f,0.809360027f,0.811590016f,0.813790023f,0.81595999f,0.818120003f,0.820240021f,0.822340012f,0.824400008f,0.826439977f,0.828440011f,0.830410004f,0.832340002f,0.834230006f,0.836080015f,0.837880015f,0.839630008f,0.841329992f,0.842970014f,0.844560027f,0.846090019f,0.847559988f,0.848959982f,0.850300014f,0.851559997f,0.852760017f,0.853879988f,0.85492003f,0.855880022f,0.858060002f,0.85939002f,0.860710025f,0.862010002f,0.863309979f,0.864600003f,0.865869999f,0.867139995f,0.868390024f,0.869639993f,0.870880008f,0.872099996f,0.873319983f,0.874520004f,0.875720024f,0.876909971f,0.87808001f,0.87924999f,0.880410016f,0.881560028f,0.882690012f,0.883819997f,0.884940028f,0.886049986f,0.88714999f,0.88823998f,0.889320016f,0.890399992f,0.891460001f,0.89252001f,0.893559992f,0.894599974f,0.895630002f,0.896640003f,0.897650003f,0.898660004f,0.899649978f,0.900629997f,0.901610017f,0.902570009f,0.903530002f,0.90447998f,0.905420005f,0.906359971f,0.907280028f,0.908200026f,0.90911001f,0.91000998f,0.910899997f,0.91178f,0.912660003f,0.913529992f,0.914390028f,0.91523999f,0.916090012f,0.91693002f,0.917760015f,0.918579996f,0.919390023f,0.92019999f,0.921000004f,0.921790004f,0.922580004f,0.92335999f,0.924130023f,0.924889982f,0.925650001f,0.926400006f,0.927139997f,0.927879989f,0.928610027f,0.929329991f,0.930040002f,0.930750012f,0.931460023f,0.932150006f,0.93283999f,0.933520019f,0.934199989f};
static const float REF_CES21[400] = {0.123559996f,0.124959998f,0.126379997f,0.127810001f,0.129260004f,0.130710006f,0.132190004f,0.133670002f,0.135169998f,0.136690006f,0.138219997f,0.139760002f,0.141320005f,0.142890006f,0.144480005f,0.146080002f,0.147689998f,0.149320006f,0.150969997f,0.152630001f,0.148739994f,0.15309f,0.156939998f,0.160319999f,0.163259998f,0.165779993f,0.167909995f,0.169689998f,0.17114f,0.172289997f,0.173160002f,0.173789993f,0.174209997f,0.174429998f,0.174500003f,0.174439996f,0.174270004f,0.174030006f,0.173749998f,0.173449993f,0.173160002f,0.172910005f,0.172690004f,0.172499999f,0.172340006f,0.172199994f,0.172079995f,0.171969995f,0.171869993f,0.171770006f,0.171670005f,0.171570003f,0.171470001f,0.171360001f,0.171250001f,0.17114f,0.171039999f,0.170939997f,0.170849994f,0.170760006f,0.170680001f,0.170609996f,0.170550004f,0.170509994f,0.170479998f,0.170469999f,0.170469999f,0.170489997f,0.170530006f,0.170589998f,0.170680001f,0.170790002f,0.170919999f,0.171090007f,0.171279997f,0.171499997f,0.171759993f,0.172049999f,0.17238f,0.172749996f,0.173160002f,0.17362f,0.174109995f,0.174649999f,0.175229996f,0.175860003f,0.176530004f,0.17723f,0.177990004f,0.178780004f,0.179619998f,0.180490002f,0.181400001f,0.182349995f,0.183320001f,0.184300005f,0.185310006f,0.186320007f,0.187329993f,0.188339993f,0.189349994f,0.190339997f,0.191320002f,0.192300007f,0.193269998f,0.194250003f,0.195230007f,0.196219996f,0.197219998f,0.198239997f,0.199269995f,0.200340003f,0.201429993f,0.202559993f,0.203749999f,0.20499f,0.206300005f,0.207690001f,0.209150001f,0.210720003f,0.212380007f,0.214159995f,0.216069996f,0.218130007f,0.220359996f,0.222780004f,0.225419998f,0.228279993f,0.231409997f,0.234799996f,0.23849f,0.242500007f,0.246820003f,0.251459986f,0.256440014f,0.261739999f,0.267379999f,0.273369998f,0.279689997f,0.286370009f,0.29339999f,0.300790012f,0.308510005f,0.31656f,0.324900001f,0.333530009f,0.342429996f,0.35157001f,0.360940009f,0.370510012f,0.380279988f,0.390219986f,0.400299996f,0.410519987f,0.420850009f,0.43125999f,0.441740006f,0.452270001f,0.462830007f,0.473390013f,0.483940005f,0.494450003f,0.504909992f,0.515299976f,0.525590003f,0.535769999f,0.545819998f,0.555719972f,0.565450013f,0.574989974f,0.584320009f,0.593429983f,0.602330029f,0.611039996f,0.619560003f,0.627910018f,0.636099994f,0.644159973f,0.652090013f,0.65990001f,0.667630017f,0.675260007f,0.682799995f,0.690240026f,0.697570026f,0.704760015f,0.71183002f,0.71875f,0.725510001f,0.73210001f,0.738520026f,0.744750023f,0.750800014f,0.756669998f,0.76236999f,0.767920017f,0.773299992f,0.778540015f,0.783640027f,0.788600028f,0.793429971f,0.798129976f,0.802699983f,0.807129979f,0.81141001f,0.815530002f,0.819469988f,0.823239982f,0.826810002f,0.830179989f,0.833339989f,0.836279988f,0.839030027f,0.841600001f,0.844009995f,0.846279979f,0.848439991f,0.850510001f,0.852509975f,0.854460001f,0.856379986f,0.858280003f,0.860170007f,0.862030029f,0.863860011f,0.865649998f,0.867370009f,0.869040012f,0.870630026f,0.87213999f,0.873549998f,0.874870002f,0.876100004f,0.877240002f,0.878310025f,0.879320025f,0.880280018f,0.881190002f,0.882070005f,0.882929981f,0.883780003f,0.884620011f,0.885460019f,0.88628f,0.887090027f,0.887889981f,0.888670027f,0.889429986f,0.890150011f,0.890860021f,0.891520023f,0.892159998f,0.892759979f,0.893339992f,0.893890023f,0.894420028f,0.894930005f,0.895430028f,0.895919979f,0.896399975f,0.896889985f,0.897369981f,0.897849977f,0.898329973f,0.898810029f,0.899280012f,0.899739981f,0.900189996f,0.900629997f,0.901049972f,0.901449978f,0.901839972f,0.902209997f,0.902549982f,0.902880013f,0.903190017f,0.903479993f,0.903750002f,0.903989971f,0.904219985f,0.904429972f,0.904619992f,0.904789984f,0.904950023f,0.905089974f,0.905210018f,0.905330002f,0.905439973f,0.905539989f,0.905629992f,0.905719995f,0.905809999f,0.905900002f,0.905990005f,0.906080008f,0.906170011f,0.906270027f,0.906369984f,0.906480014f,0.906589985f,0.906719983f,0.90684998f,0.906989992f,0.907140017f,0.907289982f,0.90745002f,0.907620013f,0.907779992f,0.907959998f,0.90812999f,0.908299983f,0.908479989f,0.908649981f,0.908819973f,0.908990026f,0.909160018f,0.909319997f,0.909470022f,0.909619987f,0.909759998f,0.909889996f,0.910109997f,0.910269976f,0.910440028f,0.910600007f,0.910759985f,0.910920024f,0.911080003f,0.911249995f,0.911409974f,0.911570013f,0.911729991f,0.91188997f,0.912050009f,0.912209988f,0.912370026f,0.912519991f,0.91267997f,0.912840009f,0.912999988f,0.913160026f,0.913320005f,0.91346997f,0.913630009f,0.913789988f,0.913940012f,0.914099991f,0.91426003f,0.914409995f,0.914569974f,0.914719999f,0.914879978f,0.915030003f,0.915189981f,0.915340006f,0.915499985f,0.91565001f,0.915809989f,0.915960014f,0.916109979f,0.916260004f,0.916419983f,0.916570008f,0.916719973f,0.916869998f,0.917029977f,0.917180002f,0.917330027f,0.917479992f,0.917630017f,0.917779982f,0.917930007f,0.918079972f,0.918229997f,0.918380022f,0.918529987f,0.918680012f,0.918829978f,0.918969989f,0.919120014f,0.919269979f,0.919420004f,0.919570029f,0.91970998f,0.919860005f,0.920009971f,0.920149982f,0.920300007f,0.920440018f,0.920589983f,0.920740008f,0.92088002f,0.921029985f,0.921169996f,0.921310008f,0.921459973f,0.921599984f,0.921750009f,0.92189002f,0.922029972f};
static const float REF_CES22[400] = {0.000123000005f,0.00225499994f,0.0043680002f,0.00646399986f,0.00854600035f,0.0106149996f,0.0126729999f,0.0147230001f,0.0167670008f,0.0188069995f,0.0208439995f,0.0228809994f,0.024921f,0.0269649997f,0.0290150009f,0.0310730003f,0.0331420004f,0.0352240019f,0.0373199992f,0.0394329987f,0.041565001f,0.0437159985f,0.0458769985f,0.0480390005f,0.0501900017f,0.0523199998f,0.0544180013f,0.0564740002f,0.0584780015f,0.0604190007f,0.0622860007f,0.0640709996f,0.0657690018f,0.067381002f,0.0689029992f,0.0703350008f,0.0716739967f,0.0729190037f,0.0740680024f,0.075120002f,0.0760729983f,0.0769279972f,0.0776949972f,0.0783889964f,0.0790230036f,0.0796110034f,0.0801659971f,0.0807019994f,0.0812330022f,0.0817719996f,0.0823329985f,0.0829270035f,0.0835559964f,0.0842190012f,0.0849149972f,0.0856439993f,0.0864050016f,0.0871969983f,0.0880199969f,0.088872999f,0.0897549987f,0.0906649977f,0.0916019976f,0.0925650001f,0.0935510024f,0.0945580006f,0.0955860019f,0.0966319963f,0.0976950005f,0.0987730026f,0.0998639986f,0.10097f,0.102090001f,0.103220001f,0.104369998f,0.10554f,0.106729999f,0.107950002f,0.109190002f,0.110469997f,0.111769997f,0.1131f,0.114469998f,0.115869999f,0.117299996f,0.118770003f,0.120269999f,0.121799998f,0.123369999f,0.124980003f,0.126619995f,0.128299996f,0.129999995f,0.131740004f,0.133499995f,0.135289997f,0.137089998f,0.138909996f,0.140729994f,0.142560005f,0.144400001f,0.146239996f,0.148080006f,0.149920002f,0.151779994f,0.153650001f,0.155550003f,0.157460004f,0.159400001f,0.161369994f,0.163369998f,0.165409997f,0.167490005f,0.169609994f,0.171770006f,0.173969999f,0.17622f,0.178509995f,0.180859998f,0.183249995f,0.185690001f,0.188189998f,0.190740004f,0.193350002f,0.196020007f,0.198760003f,0.201570004f,0.204449996f,0.207399994f,0.210439995f,0.21356f,0.216759995f,0.220050007f,0.223419994f,0.22687f,0.230389997f,0.233989999f,0.237660006f,0.241390005f,0.245199993f,0.249060005f,0.252990007f,0.256969988f,0.261029989f,0.265159994f,0.269349992f,0.273629993f,0.27798f,0.282409996f,0.286929995f,0.291539997f,0.296240002f,0.30103001f,0.305909991f,0.310880005f,0.315939993f,0.321090013f,0.326330006f,0.331660002f,0.337069988f,0.342579991f,0.348170012f,0.353850007f,0.359600008f,0.365420014f,0.371309996f,0.377240002f,0.383230001f,0.389259994f,0.395330012f,0.401419997f,0.407539994f,0.413690001f,0.419869989f,0.426079988f,0.43235001f,0.438659996f,0.44501999f,0.45144999f,0.457940012f,0.46450001f,0.471130013f,0.477820009f,0.484560013f,0.49131f,0.498079985f,0.504830003f,0.511560023f,0.518239975f,0.524860024f,0.531409979f,0.537859976f,0.544229984f,0.550499976f,0.556699991f,0.562810004f,0.568859994f,0.574829996f,0.580730021f,0.586570024f,0.59236002f,0.598089993f,0.603760004f,0.60935998f,0.614889979f,0.62033999f,0.625710011f,0.630990028f,0.636160016f,0.641240001f,0.646200001f,0.651049972f,0.655780017f,0.660399973f,0.664900005f,0.669279993f,0.673539996f,0.677699983f,0.681729972f,0.685649991f,0.689450026f,0.69313997f,0.696709991f,0.700179994f,0.703549981f,0.706820011f,0.710009992f,0.71311003f,0.716120005f,0.719070017f,0.721939981f,0.724749982f,0.727490008f,0.730159998f,0.732770026f,0.735310018f,0.737779975f,0.740180016f,0.742510021f,0.74476999f,0.746949971f,0.749059975f,0.751100004f,0.75308001f,0.755010009f,0.756889999f,0.758719981f,0.760519981f,0.762279987f,0.76402998f,0.765749991f,0.767459989f,0.769150019f,0.770820022f,0.772459984f,0.774070024f,0.775640011f,0.777149975f,0.778620005f,0.780030012f,0.781369984f,0.782649994f,0.783860028f,0.785019994f,0.786130011f,0.787199974f,0.788240016f,0.789250016f,0.79023999f,0.791230023f,0.792209983f,0.793200016f,0.79418999f,0.795189977f,0.796199977f,0.797230005f,0.798269987f,0.799319983f,0.800400019f,0.801500022f,0.802619994f,0.803759992f,0.804929972f,0.806089997f,0.807259977f,0.808420002f,0.809560001f,0.810670018f,0.811749995f,0.812770009f,0.813750029f,0.814670026f,0.815519989f,0.816340029f,0.817110002f,0.817849994f,0.818560004f,0.819260001f,0.819949985f,0.820640028f,0.821330011f,0.822030008f,0.822749972f,0.82348001f,0.824209988f,0.82494998f,0.825680017f,0.826420009f,0.827160001f,0.827889979f,0.828620017f,0.829339981f,0.830049992f,0.830760002f,0.831470013f,0.832180023f,0.832899988f,0.833620012f,0.834360003f,0.835099995f,0.835870028f,0.836650014f,0.837450027f,0.838240027f,0.839020014f,0.839789987f,0.840529978f,0.841239989f,0.841899991f,0.842509985f,0.843050003f,0.843519986f,0.843930006f,0.844290018f,0.844590008f,0.844860017f,0.845099986f,0.845309973f,0.845499992f,0.845690012f,0.845879972f,0.846080005f,0.846289992f,0.84653002f,0.846809983f,0.847119987f,0.847490013f,0.847909987f,0.848399997f,0.848959982f,0.849600017f,0.849240005f,0.849539995f,0.849829972f,0.850130022f,0.850430012f,0.850719988f,0.851019979f,0.851310015f,0.851599991f,0.851899981f,0.852190018f,0.852479994f,0.852769971f,0.853060007f,0.853349984f,0.85364002f,0.853929996f,0.854219973f,0.854510009f,0.854799986f,0.855090022f,0.855379999f,0.855660021f,0.855949998f,0.856239974f,0.856519997f,0.856809974f,0.857089996f,0.857370019f,0.857659996f,0.857940018f,0.858219981f,0.858510017f,0.85878998f,0.859070003f,0.859350026f,0.859629989f,0.859910011f,0.860189974f,0.860469997f,0.86075002f,0.861020029f,0.861299992f,0.861580014f,0.861859977f,0.862129986f,0.862410009f,0.862680018f,0.862959981f};
static const float REF_CES23[400] = {0.378529996f,0.383529991f,0.388220012f,0.392610013f,0.396730006f,0.40061f,0.40426001f,0.40772f,0.411009997f,0.41415f,0.417160004f,0.420069993f,0.422879994f,0.425610006f,0.428250015f,0.430819988f,0.433310002f,0.435750008f,0.438129991f,0.440459996f,0.442739993f,0.444990009f,0.4472f,0.44938001f,0.451519996f,0.453640014f,0.455729991f,0.457800001f,0.459850013f,0.461870015f,0.463880002f,0.465869993f,0.46785f,0.469799995f,0.471740007f,0.473659992f,0.475560009f,0.47744f,0.479299992f,0.481130004f,0.482939988f,0.484730005f,0.486490011f,0.488240004f,0.489980012f,0.491710007f,0.493440002f,0.495169997f,0.496910006f,0.498650014f,0.50041002f,0.502189994f,0.503970027f,0.505770028f,0.507570028f,0.509370029f,0.511160016f,0.512929976f,0.514689982f,0.51643002f,0.518140018f,0.519819975f,0.52147001f,0.523090005f,0.524699986f,0.526300013f,0.527890027f,0.52947998f,0.53105998f,0.532660007f,0.534269989f,0.535899997f,0.537540019f,0.539200008f,0.540889978f,0.542599976f,0.544330001f,0.546079993f,0.54786998f,0.549669981f,0.551509976f,0.553369999f,0.555260003f,0.55716002f,0.559080005f,0.560989976f,0.56291002f,0.564809978f,0.566699982f,0.568570018f,0.570410013f,0.572220027f,0.573989987f,0.57573998f,0.577459991f,0.579150021f,0.580820024f,0.58247f,0.584100008f,0.585720003f,0.58732003f,0.588909984f,0.590499997f,0.592079997f,0.593670011f,0.595260024f,0.596880019f,0.598510027f,0.600160003f,0.601849973f,0.603569984f,0.60532999f,0.607129991f,0.608969986f,0.61085999f,0.612779975f,0.614750028f,0.616750002f,0.618799984f,0.620899975f,0.623030007f,0.625209987f,0.627420008f,0.629670024f,0.631950021f,0.634249985f,0.636569977f,0.638909996f,0.641269982f,0.643630028f,0.645990014f,0.64835f,0.65072f,0.653100014f,0.655489981f,0.657890022f,0.660319984f,0.662779987f,0.665269971f,0.667789996f,0.670360029f,0.672969997f,0.675639987f,0.678369999f,0.681169987f,0.684059978f,0.687030017f,0.690100014f,0.693270028f,0.696560025f,0.699970007f,0.703509986f,0.707159996f,0.710900009f,0.714699984f,0.71855998f,0.722440004f,0.726329982f,0.730210006f,0.734049976f,0.737839997f,0.741550028f,0.745180011f,0.74871999f,0.752149999f,0.755479991f,0.75869f,0.76177001f,0.764720023f,0.767530024f,0.770190001f,0.772700012f,0.775049984f,0.777270019f,0.77937001f,0.781350017f,0.783219993f,0.785000026f,0.786689997f,0.788309991f,0.78986001f,0.791360021f,0.792810023f,0.794210017f,0.795570016f,0.79689002f,0.798179984f,0.79944998f,0.800679982f,0.801900029f,0.80309999f,0.804289997f,0.805459976f,0.806599975f,0.807709992f,0.808790028f,0.809819996f,0.81081003f,0.811739981f,0.812609971f,0.813409984f,0.814140022f,0.814800024f,0.815389991f,0.815919995f,0.816399992f,0.816810012f,0.817179978f,0.817499995f,0.817770004f,0.818009973f,0.818210006f,0.818379998f,0.81852001f,0.818650007f,0.818759978f,0.818870008f,0.818970025f,0.819079995f,0.819199979f,0.819339991f,0.819500029f,0.819670022f,0.819869995f,0.820079982f,0.820309997f,0.820559978f,0.82081002f,0.821080029f,0.821349978f,0.821630001f,0.821919978f,0.822210014f,0.82249999f,0.822799981f,0.823109984f,0.823409975f,0.823719978f,0.824039996f,0.824349999f,0.824670017f,0.824989974f,0.825309992f,0.825649977f,0.825999975f,0.826359987f,0.826740026f,0.827149987f,0.827579975f,0.828050017f,0.828549981f,0.829089999f,0.829659998f,0.830259979f,0.830879986f,0.831520021f,0.832180023f,0.832840025f,0.833500028f,0.83415997f,0.834810019f,0.835449994f,0.836080015f,0.836700022f,0.83732003f,0.837939978f,0.838559985f,0.839190006f,0.839820027f,0.840470016f,0.841139972f,0.841820002f,0.842530012f,0.843240023f,0.843970001f,0.844709992f,0.845449984f,0.846199989f,0.846949995f,0.8477f,0.848439991f,0.849179983f,0.849910021f,0.850639999f,0.851369977f,0.852090001f,0.852819979f,0.853540003f,0.854260027f,0.854990005f,0.855719984f,0.856450021f,0.857190013f,0.857930005f,0.85868001f,0.859430015f,0.860189974f,0.860960007f,0.86172998f,0.862510026f,0.863290012f,0.864080012f,0.864880025f,0.865670025f,0.866460025f,0.867229998f,0.867999971f,0.868740022f,0.869459987f,0.870159984f,0.870819986f,0.871450007f,0.872049987f,0.872619987f,0.873179972f,0.873730004f,0.874279976f,0.874830008f,0.875389993f,0.875970006f,0.876569986f,0.877200007f,0.877849996f,0.878520012f,0.879180014f,0.879840016f,0.880479991f,0.881099999f,0.881690025f,0.88221997f,0.88270998f,0.883140028f,0.883509994f,0.883840024f,0.884140015f,0.884410024f,0.884670019f,0.884930015f,0.885200024f,0.885479987f,0.88578999f,0.886129975f,0.886510015f,0.886900008f,0.887300014f,0.887700021f,0.888100028f,0.888490021f,0.888849974f,0.889169991f,0.889460027f,0.889699996f,0.889900029f,0.890060008f,0.890190005f,0.890299976f,0.890389979f,0.890470028f,0.890550017f,0.89064002f,0.890739977f,0.890850008f,0.890980005f,0.891120017f,0.891269982f,0.891409993f,0.891550004f,0.891690016f,0.89181f,0.891919971f,0.89200002f,0.892059982f,0.892099977f,0.892120004f,0.892130017f,0.892120004f,0.892099977f,0.892080009f,0.892050028f,0.892019987f,0.89200002f,0.891979992f,0.891969979f,0.891960025f,0.891960025f,0.891960025f,0.891960025f,0.891969979f,0.891979992f,0.891990006f,0.89200002f,0.892009974f,0.892019987f,0.892030001f,0.892040014f,0.892040014f,0.892040014f,0.892040014f,0.892030001f,0.892019987f};
static const float REF_CES24[400] = {0.200259998f,0.202600002f,0.204970002f,0.207359999f,0.209769994f,0.212200001f,0.214650005f,0.217130005f,0.219620004f,0.222130001f,0.224659994f,0.227219999f,0.229790002f,0.232380003f,0.234999999f,0.237629995f,0.240290001f,0.242960006f,0.245660007f,0.248370007f,0.25150001f,0.253630012f,0.256269991f,0.259299994f,0.262600005f,0.266050011f,0.269520015f,0.272890002f,0.276050001f,0.278849989f,0.281199992f,0.282990009f,0.284260005f,0.285079986f,0.285510004f,0.285629988f,0.28549999f,0.285180002f,0.284750015f,0.284260005f,0.283800006f,0.283410013f,0.283089995f,0.282840014f,0.282649994f,0.282489985f,0.282370001f,0.282270014f,0.282180011f,0.282099992f,0.282000005f,0.281890005f,0.281760007f,0.281619996f,0.281480014f,0.281349987f,0.281230003f,0.281129986f,0.281049997f,0.281010002f,0.280999988f,0.281040013f,0.281120002f,0.281239986f,0.281399995f,0.281610012f,0.28185001f,0.282130003f,0.282449991f,0.282810003f,0.283199996f,0.283630013f,0.284090012f,0.284579992f,0.285109997f,0.285670012f,0.286269993f,0.286900014f,0.28757f,0.288269997f,0.289000005f,0.289770007f,0.290580004f,0.291429996f,0.29234001f,0.293300003f,0.294319987f,0.295399994f,0.296559989f,0.297789991f,0.299100012f,0.300500005f,0.301979989f,0.303550005f,0.305209994f,0.306950003f,0.308780015f,0.310710013f,0.312709987f,0.314810008f,0.317000002f,0.319279999f,0.321649998f,0.324119985f,0.326700002f,0.329389989f,0.332199991f,0.335130006f,0.338180006f,0.341369987f,0.344700009f,0.348170012f,0.351779997f,0.355529994f,0.359409988f,0.363429993f,0.367570013f,0.37184f,0.376239985f,0.380760014f,0.385399997f,0.390159994f,0.395029992f,0.400029987f,0.405140013f,0.41038999f,0.415769994f,0.421270013f,0.426910013f,0.432689995f,0.438600004f,0.444660008f,0.450859994f,0.457210004f,0.46371001f,0.470369995f,0.477200001f,0.484189987f,0.491349995f,0.498690009f,0.506200016f,0.513890028f,0.521759987f,0.529779971f,0.537959993f,0.546259999f,0.554690003f,0.563229978f,0.571870029f,0.580600023f,0.589399993f,0.598259985f,0.607179999f,0.616129994f,0.625109971f,0.63410002f,0.64309001f,0.652069986f,0.661019981f,0.669939995f,0.678799987f,0.687600017f,0.696319997f,0.704930007f,0.713419974f,0.721759975f,0.729939997f,0.73793f,0.745720029f,0.753279984f,0.760599971f,0.767650008f,0.774429977f,0.780939996f,0.787180007f,0.793139994f,0.798820019f,0.804220021f,0.809329987f,0.814159989f,0.818700016f,0.822950006f,0.826919973f,0.830619991f,0.834070027f,0.837270021f,0.840240002f,0.842980027f,0.84552002f,0.847850025f,0.850000024f,0.851970017f,0.853779972f,0.855430007f,0.856930017f,0.858299971f,0.859539986f,0.860660017f,0.861670017f,0.862580001f,0.863399982f,0.864139974f,0.864799976f,0.865400016f,0.865920007f,0.866370022f,0.866770029f,0.8671f,0.867389977f,0.867619991f,0.867799997f,0.867940009f,0.868040025f,0.868099988f,0.868130028f,0.868120015f,0.86808002f,0.868019998f,0.867929995f,0.867829978f,0.867699981f,0.867560029f,0.867399991f,0.867240012f,0.867060006f,0.86688f,0.86668998f,0.866490006f,0.866289973f,0.866100013f,0.86589998f,0.86571002f,0.865509987f,0.865320027f,0.865130007f,0.864939988f,0.864740014f,0.864539981f,0.864329994f,0.864120007f,0.863900006f,0.863669991f,0.863430023f,0.863179982f,0.862909973f,0.86263001f,0.862339973f,0.862030029f,0.861699998f,0.861360013f,0.861000001f,0.860620022f,0.860220015f,0.859820008f,0.859399974f,0.85898f,0.85856998f,0.858160019f,0.857760012f,0.857370019f,0.856999993f,0.856649995f,0.856320024f,0.85601002f,0.85571003f,0.855430007f,0.855149984f,0.854889989f,0.85461998f,0.854359984f,0.854099989f,0.853839993f,0.853559971f,0.853280008f,0.852970004f,0.852639973f,0.852270007f,0.85187f,0.851429999f,0.850939989f,0.850399971f,0.849799991f,0.849160016f,0.848479986f,0.847779989f,0.847079992f,0.846379995f,0.845700026f,0.845049977f,0.844449997f,0.843900025f,0.843420029f,0.843010008f,0.84266001f,0.842369974f,0.842119992f,0.841929972f,0.841769993f,0.841650009f,0.841560006f,0.841499984f,0.84145999f,0.841430008f,0.841409981f,0.84138f,0.841340005f,0.841289997f,0.841199994f,0.84108001f,0.840919971f,0.840699971f,0.840430021f,0.840110004f,0.839749992f,0.839380026f,0.838989973f,0.838609993f,0.838249981f,0.83792001f,0.837629974f,0.837400019f,0.837050021f,0.836740017f,0.836440027f,0.836130023f,0.835820019f,0.835520029f,0.835210025f,0.834900022f,0.834590018f,0.834280014f,0.83397001f,0.833660007f,0.833350003f,0.833039999f,0.832729995f,0.832409978f,0.832099974f,0.83178997f,0.831480026f,0.831160009f,0.830850005f,0.830529988f,0.830219984f,0.829900026f,0.829580009f,0.829270005f,0.828949988f,0.828629971f,0.828310013f,0.828000009f,0.827679992f,0.827359974f,0.827040017f,0.826719999f,0.826399982f,0.826070011f,0.825749993f,0.825429976f,0.825110018f,0.824779987f,0.82446003f,0.824140012f,0.823809981f,0.823490024f,0.823159993f,0.822830021f,0.822510004f,0.822179973f,0.821850002f,0.821519971f,0.821200013f,0.820869982f,0.820540011f,0.82020998f,0.819880009f,0.819549978f,0.819209993f,0.818880022f,0.818549991f,0.818220019f,0.817879975f,0.817550004f,0.817219973f,0.816879988f,0.816550016f,0.816209972f,0.815869987f,0.815540016f,0.815199971f,0.814859986f,0.814520001f,0.81418997f,0.813849986f,0.813510001f,0.813170016f,0.812829971f,0.812489986f,0.812139988f,0.811800003f};
static const float REF_CES25[400] = {0.102810003f,0.100680001f,0.0985950008f,0.0965820029f,0.0946940035f,0.0929239988f,0.0911519974f,0.0893469974f,0.0875419974f,0.0857570022f,0.0840419978f,0.0824339986f,0.080877997f,0.0793299973f,0.077786997f,0.0762130022f,0.0745759979f,0.0729259998f,0.0713040009f,0.0697109997f,0.0681409985f,0.0666109994f,0.0651820004f,0.0639540032f,0.0630099997f,0.0624039993f,0.0621370003f,0.062086001f,0.0620639995f,0.0619180016f,0.0615780018f,0.0610780008f,0.0604929999f,0.0598729998f,0.0592279993f,0.0585360005f,0.0577500015f,0.0568839982f,0.0560089983f,0.0552349985f,0.0546419993f,0.0542699993f,0.0541189983f,0.0542099997f,0.054513f,0.0550159998f,0.0556790009f,0.0564199984f,0.0571350008f,0.0577909984f,0.0583240017f,0.0587139986f,0.0589499995f,0.0590029992f,0.058809001f,0.0584039986f,0.0577979982f,0.0570459999f,0.0562379993f,0.0554290004f,0.0546160005f,0.0538889989f,0.0533180013f,0.0529429987f,0.052809f,0.0528969988f,0.0530700013f,0.0532159992f,0.0532759987f,0.0532010011f,0.0530360006f,0.0528820008f,0.0527490005f,0.0525839999f,0.0523810014f,0.0521010011f,0.0517299995f,0.0513430014f,0.0510330014f,0.0508200005f,0.0507469997f,0.0507880002f,0.0508709997f,0.0509649999f,0.0511040017f,0.051275f,0.0515150018f,0.0518539995f,0.0522620007f,0.0526579991f,0.0529959984f,0.053222999f,0.0533340015f,0.0533399992f,0.0532750003f,0.0531629995f,0.0530049987f,0.0527760014f,0.0524890013f,0.0521759987f,0.0518780015f,0.0516549982f,0.0515780002f,0.0516810007f,0.0519630015f,0.0523959994f,0.0529250018f,0.0534939989f,0.0540480018f,0.0545770004f,0.0550980009f,0.0556540005f,0.0562720001f,0.0569670014f,0.0577219985f,0.058513999f,0.059328001f,0.0601940006f,0.0611499995f,0.0622269996f,0.0634299964f,0.0647500008f,0.0661400035f,0.0675740018f,0.0690530017f,0.0706169978f,0.0723270029f,0.0742530003f,0.0764700025f,0.0790840015f,0.0821759999f,0.0857930034f,0.089978002f,0.0947379991f,0.100040004f,0.105889998f,0.11231f,0.1193f,0.126910001f,0.135120004f,0.143879995f,0.153160006f,0.162939996f,0.173199996f,0.183909997f,0.19506f,0.206540003f,0.218209997f,0.229969993f,0.241710007f,0.253320009f,0.26473999f,0.275929987f,0.286819994f,0.297349989f,0.307500005f,0.317279994f,0.326669991f,0.335709989f,0.344399989f,0.352710009f,0.360630006f,0.368149996f,0.375270009f,0.382019997f,0.388449997f,0.394600004f,0.400480002f,0.406109989f,0.411489993f,0.416590005f,0.421389997f,0.425880015f,0.430049986f,0.433919996f,0.437530011f,0.440869987f,0.443980008f,0.446869999f,0.449550003f,0.452060014f,0.454409987f,0.45668f,0.458889991f,0.461059988f,0.463149995f,0.465149999f,0.467029989f,0.468769997f,0.470389992f,0.471929997f,0.47341001f,0.474839985f,0.476249993f,0.477629989f,0.479000002f,0.480399996f,0.481830001f,0.483330011f,0.48488f,0.486440003f,0.48793f,0.489329994f,0.490630001f,0.491789997f,0.492819995f,0.493750006f,0.494569987f,0.495240003f,0.495799989f,0.496289998f,0.496809989f,0.497449994f,0.498250008f,0.499179989f,0.500199974f,0.501240015f,0.502210021f,0.50308001f,0.503859997f,0.504559994f,0.505110025f,0.505540013f,0.505859971f,0.506089985f,0.506259978f,0.506410003f,0.506609976f,0.506889999f,0.507269979f,0.507790029f,0.508400023f,0.509050012f,0.509660006f,0.510140002f,0.510420024f,0.510590017f,0.510670006f,0.510670006f,0.510630012f,0.510550022f,0.510399997f,0.510209978f,0.510039985f,0.509909987f,0.509840012f,0.509819984f,0.509800017f,0.509750009f,0.509670019f,0.509530008f,0.509389997f,0.509270012f,0.509190023f,0.509199977f,0.509350002f,0.5097f,0.510240018f,0.510959983f,0.511799991f,0.512700021f,0.513549984f,0.514259994f,0.514750004f,0.514989972f,0.514959991f,0.514649987f,0.514110029f,0.513429999f,0.512690008f,0.511940002f,0.511319995f,0.510909975f,0.510739982f,0.510760009f,0.510940015f,0.511160016f,0.511319995f,0.511340022f,0.511250019f,0.511070013f,0.510850012f,0.510619998f,0.51038003f,0.510119975f,0.509850025f,0.509549975f,0.509190023f,0.508780003f,0.508260012f,0.507579982f,0.506690025f,0.505620003f,0.504390001f,0.503149986f,0.502009988f,0.501049995f,0.500289977f,0.499769986f,0.499469995f,0.499370009f,0.499489993f,0.499819994f,0.50029999f,0.500829995f,0.501299977f,0.501699984f,0.502099991f,0.502610028f,0.503359973f,0.50444001f,0.505819976f,0.507380009f,0.508939981f,0.510469973f,0.513899982f,0.516520023f,0.518209994f,0.518209994f,0.518209994f,0.518209994f,0.521570027f,0.523020029f,0.524460018f,0.525900006f,0.527350008f,0.528789997f,0.530229986f,0.531669974f,0.533110023f,0.534550011f,0.53599f,0.537429988f,0.538869977f,0.540310025f,0.541750014f,0.543190002f,0.544619977f,0.546060026f,0.547490001f,0.548929989f,0.550360024f,0.551789999f,0.553219974f,0.554650009f,0.556079984f,0.557510018f,0.558939993f,0.560370028f,0.561789989f,0.563220024f,0.564639986f,0.566060007f,0.567480028f,0.568899989f,0.57032001f,0.571739972f,0.573159993f,0.57457f,0.575990021f,0.577400029f,0.578809977f,0.580219984f,0.581629992f,0.583039999f,0.584450006f,0.58585f,0.587260008f,0.588660002f,0.590059996f,0.59145999f,0.592859983f,0.594259977f,0.595650017f,0.597039998f,0.598439991f,0.599829972f,0.601220012f,0.602599978f,0.603990018f,0.605369985f,0.606750011f,0.608129978f,0.609510005f,0.610889971f,0.612269998f,0.61364001f,0.615010023f,0.616379976f,0.617749989f,0.619109988f,0.620480001f,0.62184f,0.623199999f,0.624559999f,0.625919998f,0.627269983f,0.628620028f,0.629970014f,0.63132f};
static const float REF_CES26[400] = {0.181510001f,0.180859998f,0.180219993f,0.179570004f,0.178929999f,0.178289995f,0.177650005f,0.17701f,0.176379994f,0.175750002f,0.175109997f,0.174480006f,0.173859999f,0.173230007f,0.17261f,0.171979994f,0.171360001f,0.170739993f,0.17013f,0.169510007f,0.168799996f,0.168339998f,0.167769998f,0.167109996f,0.166370004f,0.165580004f,0.164770007f,0.163939998f,0.163120002f,0.162330002f,0.161599994f,0.160940006f,0.160349995f,0.159830004f,0.159380004f,0.158999994f,0.158690006f,0.158450007f,0.158270001f,0.158150002f,0.158099994f,0.158109993f,0.158179998f,0.158319995f,0.158529997f,0.158810005f,0.159150004f,0.159580007f,0.160070002f,0.16065f,0.161300004f,0.162029997f,0.162839994f,0.163729995f,0.164690003f,0.165710002f,0.166789994f,0.167940006f,0.169139996f,0.170399994f,0.171700001f,0.173050001f,0.174449995f,0.175899997f,0.177399993f,0.178949997f,0.180559993f,0.182229996f,0.183960006f,0.185749993f,0.187600002f,0.189520001f,0.191499993f,0.193540007f,0.195629999f,0.19777f,0.199949995f,0.202169999f,0.20442f,0.206699997f,0.209000006f,0.211319998f,0.213679999f,0.216089994f,0.218559995f,0.22112f,0.223759994f,0.226520002f,0.229399994f,0.232419997f,0.235599995f,0.238940001f,0.24244f,0.246059999f,0.249789998f,0.253619999f,0.257510006f,0.261460006f,0.265439987f,0.269419998f,0.273400009f,0.277350008f,0.281300008f,0.285259992f,0.289249986f,0.293289989f,0.297399998f,0.301609993f,0.305929989f,0.310389996f,0.314999998f,0.319779992f,0.324730009f,0.329829991f,0.335090011f,0.34048f,0.345999986f,0.351639986f,0.357389987f,0.363249987f,0.369199991f,0.375239998f,0.381350011f,0.387549996f,0.393819988f,0.400169998f,0.406580001f,0.413069993f,0.419620007f,0.426230013f,0.432900012f,0.439630002f,0.446420014f,0.453269988f,0.460189998f,0.46717f,0.474229991f,0.481359988f,0.488559991f,0.495840013f,0.503199995f,0.510640025f,0.518149972f,0.525699973f,0.533280015f,0.540880024f,0.548460007f,0.556029975f,0.563549995f,0.571009994f,0.578400016f,0.585690022f,0.592899978f,0.600009978f,0.607039988f,0.614000022f,0.620869994f,0.627680004f,0.634419978f,0.641089976f,0.647700012f,0.654250026f,0.660749972f,0.667169988f,0.673520029f,0.67979002f,0.685970008f,0.69204998f,0.698040009f,0.70393002f,0.709699988f,0.715359986f,0.720889986f,0.726310015f,0.731599987f,0.736769974f,0.741819978f,0.74673003f,0.751519978f,0.756179988f,0.760699987f,0.765089989f,0.769349992f,0.773490012f,0.777509987f,0.781409979f,0.785210013f,0.788900018f,0.792490005f,0.79598999f,0.799399972f,0.802730024f,0.805970013f,0.809130013f,0.812219977f,0.815230012f,0.818159997f,0.821020007f,0.823819995f,0.826539993f,0.829200029f,0.83178997f,0.834320009f,0.836790025f,0.83920002f,0.841549993f,0.843829989f,0.846059978f,0.848230004f,0.850340009f,0.852400005f,0.854399979f,0.856350005f,0.858240008f,0.86006999f,0.861850023f,0.863579988f,0.865239978f,0.866850019f,0.868399978f,0.869899988f,0.871339977f,0.872720003f,0.874059975f,0.875349998f,0.876590014f,0.877799988f,0.878970027f,0.880110025f,0.881219983f,0.882300019f,0.883360028f,0.88440001f,0.885410011f,0.886399984f,0.887350023f,0.888279974f,0.889159977f,0.890020013f,0.89082998f,0.891600013f,0.892329991f,0.893019974f,0.893670022f,0.89428997f,0.894869983f,0.895430028f,0.895950019f,0.896459997f,0.896939993f,0.897400022f,0.897849977f,0.898280025f,0.898689985f,0.899079978f,0.899460018f,0.899829984f,0.900170028f,0.9005f,0.900810003f,0.90109998f,0.901369989f,0.901629984f,0.901880026f,0.902109981f,0.902320027f,0.902530015f,0.902729988f,0.902930021f,0.903110027f,0.903299987f,0.903479993f,0.903659999f,0.903840005f,0.904020011f,0.904190004f,0.904359996f,0.904529989f,0.904690027f,0.904850006f,0.904999971f,0.905149996f,0.905290008f,0.905430019f,0.905569971f,0.905700028f,0.905830026f,0.90595001f,0.906069994f,0.906189978f,0.906300008f,0.906409979f,0.906509995f,0.906610012f,0.906710029f,0.906799972f,0.906889975f,0.906970024f,0.907050014f,0.907130003f,0.907199979f,0.907270014f,0.907329977f,0.907400012f,0.907459974f,0.907519996f,0.907589972f,0.907660007f,0.907729983f,0.907809973f,0.907899976f,0.907989979f,0.908089995f,0.908200026f,0.908299983f,0.908399999f,0.908500016f,0.908590019f,0.908670008f,0.908739984f,0.908800006f,0.908879995f,0.908959985f,0.90903002f,0.90911001f,0.909179986f,0.909259975f,0.90933001f,0.90941f,0.909479976f,0.909560025f,0.909630001f,0.909699976f,0.909780025f,0.909850001f,0.909929991f,0.910000026f,0.910070002f,0.910149992f,0.910220027f,0.910300016f,0.910369992f,0.910440028f,0.910520017f,0.910589993f,0.910660028f,0.910740018f,0.910809994f,0.910889983f,0.910960019f,0.911029994f,0.91109997f,0.911180019f,0.911249995f,0.911319971f,0.91140002f,0.911469996f,0.911539972f,0.911620021f,0.911689997f,0.911759973f,0.911830008f,0.911909997f,0.911979973f,0.912050009f,0.912119985f,0.912199974f,0.91227001f,0.912339985f,0.912410021f,0.91249001f,0.912559986f,0.912630022f,0.912699997f,0.912769973f,0.912850022f,0.912919998f,0.912989974f,0.913060009f,0.913129985f,0.913200021f,0.91328001f,0.913349986f,0.913420022f,0.913489997f,0.913559973f,0.913630009f,0.913699985f,0.913779974f,0.913850009f,0.913919985f,0.913990021f,0.914059997f,0.914129972f,0.914200008f,0.914269984f,0.914340019f,0.914409995f,0.914489985f,0.91456002f};
static const float REF_CES27[400] = {0.0646239966f,0.0643500015f,0.0642990023f,0.0644309968f,0.064685002f,0.0649949983f,0.0652590021f,0.0654489994f,0.0656450018f,0.0658840016f,0.0662039965f,0.0666050017f,0.0669870004f,0.0672679991f,0.0674609989f,0.0675750002f,0.0676269978f,0.0677110031f,0.0678680018f,0.0680949986f,0.0683899969f,0.0687479973f,0.0691929981f,0.0698079988f,0.0706780031f,0.0718519986f,0.0733480006f,0.0751129985f,0.0770519972f,0.0790869966f,0.0811669976f,0.083329998f,0.0856589973f,0.0881830007f,0.0909129977f,0.0938899964f,0.0971409976f,0.100709997f,0.104719996f,0.109250002f,0.11434f,0.119929999f,0.125939995f,0.132239997f,0.138769999f,0.145480007f,0.152329996f,0.159270003f,0.166229993f,0.173120007f,0.179800004f,0.186179996f,0.192190006f,0.197760001f,0.202879995f,0.20758f,0.211879998f,0.215829998f,0.219459996f,0.222800002f,0.225869998f,0.228780001f,0.231649995f,0.234549999f,0.237560004f,0.240720004f,0.24391f,0.246979997f,0.249870002f,0.252499998f,0.254860014f,0.256940007f,0.258769989f,0.260320008f,0.261629999f,0.262719989f,0.263639987f,0.264530003f,0.265509993f,0.266649991f,0.268049985f,0.269739985f,0.271679997f,0.273790002f,0.275990009f,0.278120011f,0.280149996f,0.282059997f,0.283829987f,0.285420001f,0.286810011f,0.287910014f,0.288780004f,0.289460003f,0.289999992f,0.290479988f,0.290960014f,0.291339993f,0.291610003f,0.291810006f,0.291999996f,0.292270005f,0.292699993f,0.29332f,0.294149995f,0.295159996f,0.296330005f,0.297690004f,0.299239993f,0.300969988f,0.302879989f,0.304969996f,0.307229996f,0.309619993f,0.312110007f,0.31468001f,0.317330003f,0.320069999f,0.322919995f,0.325919986f,0.329070002f,0.332289994f,0.335509986f,0.338669986f,0.341729999f,0.344630003f,0.347359985f,0.349909991f,0.352310002f,0.35462001f,0.35690999f,0.359250009f,0.361699998f,0.364270002f,0.366959989f,0.369740009f,0.372599989f,0.375510007f,0.37845999f,0.381379992f,0.384220004f,0.38696f,0.389589995f,0.392100006f,0.394520015f,0.396860003f,0.399049997f,0.401080012f,0.402909994f,0.404520005f,0.405919999f,0.407160014f,0.408219993f,0.409130007f,0.409869999f,0.410450011f,0.410869986f,0.411210001f,0.411520004f,0.41189f,0.412369996f,0.412999988f,0.413740009f,0.414590001f,0.415490001f,0.416460007f,0.417479992f,0.418579996f,0.419739991f,0.420929998f,0.422069997f,0.423130006f,0.424089998f,0.424959987f,0.425779998f,0.426569998f,0.427329987f,0.42802f,0.428600013f,0.429060012f,0.429410011f,0.429690003f,0.429960012f,0.430260003f,0.430590004f,0.430900007f,0.43118f,0.431400001f,0.43156001f,0.431690007f,0.43186f,0.432110012f,0.432469994f,0.432940006f,0.433510005f,0.434170008f,0.434879988f,0.43562001f,0.436399996f,0.437180012f,0.43799001f,0.43878001f,0.439539999f,0.440239996f,0.44084999f,0.441339999f,0.441729993f,0.44205001f,0.442319989f,0.44253999f,0.442759991f,0.442959994f,0.443179995f,0.443419993f,0.443729997f,0.444099993f,0.444499999f,0.444880009f,0.445219994f,0.445499986f,0.445740014f,0.445969999f,0.446209997f,0.44641f,0.446550012f,0.446559995f,0.446429998f,0.446240008f,0.446090013f,0.446040004f,0.446170002f,0.446469992f,0.446850002f,0.447230011f,0.447620004f,0.447939992f,0.448210001f,0.44848001f,0.448749989f,0.448949993f,0.449090004f,0.449149996f,0.449149996f,0.449110001f,0.449099988f,0.449189991f,0.449449986f,0.449829996f,0.450329989f,0.450910002f,0.451550007f,0.452179998f,0.452800006f,0.453399986f,0.453990012f,0.454560012f,0.455110013f,0.455619991f,0.456099987f,0.456510007f,0.456809998f,0.456939995f,0.45686999f,0.456580013f,0.456039995f,0.455280006f,0.454349995f,0.453319997f,0.452219993f,0.451110005f,0.450029999f,0.449030012f,0.448159993f,0.447470009f,0.446969986f,0.446660012f,0.446509987f,0.446399987f,0.446280003f,0.446079999f,0.445789993f,0.445450008f,0.445120007f,0.444799989f,0.444570005f,0.444449991f,0.444400012f,0.444370002f,0.444400012f,0.444400012f,0.444299996f,0.444099993f,0.443800002f,0.443419993f,0.443040013f,0.442719996f,0.442449987f,0.442270011f,0.442200005f,0.442250013f,0.442420006f,0.442860007f,0.443589985f,0.444579989f,0.445749998f,0.447039992f,0.448339999f,0.449620008f,0.450890005f,0.452190012f,0.453579992f,0.455040008f,0.456519991f,0.45787999f,0.459089994f,0.461210012f,0.462480009f,0.463569999f,0.463569999f,0.463569999f,0.463569999f,0.467159986f,0.468380004f,0.469599992f,0.47082001f,0.472050011f,0.473269999f,0.474489987f,0.475719988f,0.476940006f,0.478159994f,0.479389995f,0.480610013f,0.481840014f,0.483060002f,0.484290004f,0.485509992f,0.486739993f,0.487960011f,0.489190012f,0.490420014f,0.491640002f,0.492870003f,0.494089991f,0.495319992f,0.496549994f,0.497770011f,0.499000013f,0.500230014f,0.501450002f,0.502680004f,0.503910005f,0.505129993f,0.506359994f,0.507579982f,0.508809984f,0.510039985f,0.511259973f,0.512489974f,0.513710022f,0.514940023f,0.516160011f,0.517390013f,0.518610001f,0.519840002f,0.52105999f,0.522289991f,0.523509979f,0.524730027f,0.525960028f,0.527180016f,0.528400004f,0.529630005f,0.530849993f,0.532069981f,0.533290029f,0.534510016f,0.535730004f,0.536949992f,0.53816998f,0.539390028f,0.540610015f,0.541830003f,0.543039978f,0.544260025f,0.545480013f,0.546689987f,0.547909975f,0.549120009f,0.550339997f,0.551549971f,0.552770019f,0.553979993f,0.555190027f,0.556400001f,0.557609975f,0.558820009f,0.560029984f,0.561240017f,0.562449992f};
static const float REF_CES28[400] = {0.0458000004f,0.0439000018f,0.0474999994f,0.0450140014f,0.0447290018f,0.0448860005f,0.0444139987f,0.0442709997f,0.0441859998f,0.0437860005f,0.0439429991f,0.0438000001f,0.0431570001f,0.0430999994f,0.0432710014f,0.0431709997f,0.0434289984f,0.0436290018f,0.0438000001f,0.0443289988f,0.0446709991f,0.0446860008f,0.0453290008f,0.0455709994f,0.0457139984f,0.0465000011f,0.0470709987f,0.0472000018f,0.047970999f,0.0480430014f,0.0479290001f,0.0481140018f,0.0477709994f,0.0472999997f,0.0474859998f,0.0469859987f,0.0467859991f,0.0471430011f,0.0466860011f,0.0461140014f,0.0462139994f,0.0457139984f,0.0453570001f,0.0450140014f,0.0440860018f,0.0439999998f,0.0444430001f,0.0440860018f,0.0441000015f,0.0444290005f,0.0445570014f,0.0451710001f,0.0454859994f,0.0453139991f,0.0459709987f,0.0465289988f,0.0464430004f,0.0467710011f,0.0467140004f,0.0466860011f,0.0471139997f,0.0471139997f,0.046870999f,0.0474999994f,0.0477430001f,0.0479429998f,0.0486709997f,0.0489999987f,0.0488430001f,0.0488139987f,0.0480140001f,0.0472709984f,0.0471290015f,0.0463000014f,0.0455860011f,0.0453709997f,0.0450000018f,0.0450000018f,0.0456570014f,0.0455139987f,0.0455569997f,0.0459140018f,0.0460000001f,0.0459860004f,0.0461999997f,0.0457429998f,0.0460000001f,0.0464290008f,0.0463429987f,0.0465140007f,0.0470429994f,0.0472569987f,0.0481289998f,0.0485859998f,0.0484139994f,0.0488860011f,0.0494000018f,0.0495860018f,0.0500710011f,0.0501139984f,0.0499860011f,0.0508430004f,0.0511140004f,0.0507859997f,0.0509429984f,0.0511289984f,0.051171001f,0.0517570004f,0.0512860008f,0.0511289984f,0.0518429987f,0.0517860018f,0.0515000001f,0.0519709997f,0.0520000011f,0.0526570007f,0.0536140017f,0.0540999994f,0.0552860014f,0.056814f,0.0577999987f,0.0591140017f,0.0605290011f,0.061714001f,0.063842997f,0.0658290014f,0.0676999986f,0.0701859966f,0.0731289983f,0.0758289993f,0.0792289972f,0.0820569992f,0.0849139988f,0.0880860016f,0.0910139978f,0.0931570008f,0.0960860029f,0.0984139964f,0.100469999f,0.10266f,0.104429998f,0.105999999f,0.108240001f,0.109559998f,0.110689998f,0.112369999f,0.113839999f,0.115029998f,0.11631f,0.116760001f,0.117169999f,0.118160002f,0.118199997f,0.118029997f,0.118170001f,0.117990002f,0.118299998f,0.118770003f,0.118129998f,0.118110001f,0.118430004f,0.118490003f,0.118770003f,0.118840002f,0.118260004f,0.118689999f,0.119089998f,0.118830003f,0.118940003f,0.119029999f,0.118770003f,0.119209997f,0.118989997f,0.118390001f,0.118260004f,0.117399998f,0.115769997f,0.114610001f,0.113729998f,0.114289999f,0.115029998f,0.115840003f,0.11654f,0.117969997f,0.119309999f,0.120310001f,0.120240003f,0.119960003f,0.1197f,0.120339997f,0.120269999f,0.120290004f,0.120729998f,0.120700002f,0.120640002f,0.120870002f,0.120310001f,0.120099999f,0.120169997f,0.119910002f,0.12009f,0.120630004f,0.120630004f,0.121160001f,0.121990003f,0.122139998f,0.122340001f,0.122390002f,0.122129999f,0.122359999f,0.122369997f,0.121809997f,0.121809997f,0.121830001f,0.12133f,0.121160001f,0.120609999f,0.119889997f,0.12009f,0.119999997f,0.119510002f,0.119599998f,0.11913f,0.118790001f,0.11919f,0.118960001f,0.118409999f,0.118490003f,0.118189998f,0.118260004f,0.118639998f,0.118440002f,0.118189998f,0.118390001f,0.118199997f,0.118260004f,0.118560001f,0.11823f,0.117990002f,0.118129998f,0.118129998f,0.11829f,0.118629999f,0.118409999f,0.118790001f,0.119369999f,0.119369999f,0.119340003f,0.119340003f,0.118900001f,0.118809998f,0.118490003f,0.117590003f,0.117229998f,0.116910003f,0.116339996f,0.116460003f,0.116360001f,0.115809999f,0.11609f,0.116209999f,0.116060004f,0.11631f,0.116190001f,0.115889996f,0.11637f,0.116559997f,0.116559997f,0.117009997f,0.116910003f,0.116559997f,0.116839997f,0.11654f,0.116099998f,0.116140001f,0.115709998f,0.115489997f,0.115809999f,0.11564f,0.11541f,0.115369998f,0.114799999f,0.114500001f,0.114309996f,0.113329999f,0.112669997f,0.112860002f,0.112970002f,0.113590002f,0.114100002f,0.114200003f,0.115099996f,0.11603f,0.116060004f,0.116190001f,0.116240002f,0.116169997f,0.116609998f,0.116630003f,0.116159998f,0.116360001f,0.116429999f,0.116010003f,0.115709998f,0.114589997f,0.113200001f,0.11304f,0.11349f,0.113569997f,0.114139996f,0.114560001f,0.115740001f,0.117509998f,0.118089996f,0.117689997f,0.117810003f,0.117289998f,0.117229998f,0.117140003f,0.116470002f,0.116269998f,0.116269998f,0.115630001f,0.115340002f,0.115060002f,0.114430003f,0.114540003f,0.114759997f,0.114629999f,0.114990003f,0.115589999f,0.11586f,0.116740003f,0.117009997f,0.116800003f,0.116970003f,0.117059998f,0.116870001f,0.117229998f,0.11716f,0.117109999f,0.117640004f,0.117799997f,0.117969997f,0.118560001f,0.118709996f,0.118890002f,0.119309999f,0.119259998f,0.119410001f,0.119790003f,0.11947f,0.119240001f,0.119390003f,0.119099997f,0.118840002f,0.118730001f,0.118239999f,0.118309997f,0.118440002f,0.117799997f,0.117660001f,0.118029997f,0.117940001f,0.118189998f,0.118330002f,0.117990002f,0.118440002f,0.118940003f,0.118660003f,0.118799999f,0.11891f,0.118799999f,0.119209997f,0.119230002f,0.119060002f,0.119659998f,0.119929999f,0.119929999f,0.120329998f,0.120300002f,0.12026f,0.120640002f,0.120499998f,0.120530002f,0.121059999f,0.121009998f,0.121069998f,0.121399999f,0.121009998f,0.120990001f,0.121189997f,0.120810002f,0.120729998f,0.121140003f,0.121200003f,0.121310003f,0.121440001f,0.121140003f,0.121090002f};
static const float REF_CES29[400] = {0.0398130007f,0.040155001f,0.0404990017f,0.0408469997f,0.0411969982f,0.0415499993f,0.0419070013f,0.0422660001f,0.0426280014f,0.0429930016f,0.0433599986f,0.0437310003f,0.0441050008f,0.0444820002f,0.0448619984f,0.0452460013f,0.045632001f,0.0460209996f,0.0464139991f,0.0468100011f,0.0479810014f,0.0480439998f,0.0481639989f,0.0483409986f,0.048574999f,0.0488650016f,0.0492109992f,0.0496120006f,0.0500679985f,0.0505799986f,0.0511449985f,0.0517649986f,0.0524379984f,0.0531649999f,0.0539450012f,0.0547779985f,0.0556630008f,0.0566000007f,0.0575889982f,0.0586289987f,0.0597199984f,0.0608640015f,0.062066f,0.0633359998f,0.0646829978f,0.0661130026f,0.0676369965f,0.0692619979f,0.0709960014f,0.072848998f,0.0748289973f,0.0769430026f,0.079196997f,0.0815929994f,0.0841360018f,0.0868299976f,0.0896790028f,0.0926859975f,0.0958560035f,0.0991920009f,0.102700002f,0.106380001f,0.110229999f,0.114260003f,0.118450001f,0.122809999f,0.127340004f,0.132039994f,0.136899993f,0.14192f,0.14711f,0.152449995f,0.15794f,0.16358f,0.16934f,0.175229996f,0.181219995f,0.187319994f,0.193509996f,0.199770004f,0.206110001f,0.212510005f,0.218950003f,0.225429997f,0.231920004f,0.238419995f,0.244900003f,0.251359999f,0.257770002f,0.264129996f,0.270429999f,0.276639998f,0.282770008f,0.288810015f,0.294779986f,0.300660014f,0.306470007f,0.312189996f,0.317849994f,0.323419988f,0.328920007f,0.33434999f,0.339700013f,0.344980001f,0.350190014f,0.35532999f,0.360399991f,0.365390003f,0.370319992f,0.375180006f,0.379970014f,0.384689987f,0.389369994f,0.394010007f,0.398640007f,0.40327999f,0.407950014f,0.412660003f,0.417430013f,0.422280014f,0.42723f,0.432300001f,0.437480003f,0.442779988f,0.44817999f,0.453689992f,0.459309995f,0.465030015f,0.470849991f,0.47676f,0.482769996f,0.488860011f,0.495029986f,0.501250029f,0.507510006f,0.513779998f,0.520049989f,0.526300013f,0.532509983f,0.53865999f,0.544730008f,0.550710022f,0.556599975f,0.562390029f,0.568080008f,0.57367003f,0.579150021f,0.584540009f,0.589820027f,0.594990015f,0.600059986f,0.605019987f,0.609870017f,0.614589989f,0.619189978f,0.623650014f,0.627960026f,0.632130027f,0.636139989f,0.639980018f,0.643649995f,0.64714998f,0.650479972f,0.653649986f,0.656669974f,0.659560025f,0.662310004f,0.664950013f,0.667469978f,0.6699f,0.672240019f,0.674499989f,0.676680028f,0.678789973f,0.680830002f,0.682799995f,0.68471998f,0.686580002f,0.688380003f,0.690129995f,0.691839993f,0.693499982f,0.695119977f,0.696699977f,0.698239982f,0.699750006f,0.701210022f,0.702639997f,0.704039991f,0.705410004f,0.706740022f,0.708050013f,0.709330022f,0.710590005f,0.71183002f,0.713050008f,0.714269996f,0.715470016f,0.71667999f,0.717890024f,0.719099998f,0.720309973f,0.721539974f,0.722760022f,0.723990023f,0.725210011f,0.726419985f,0.727630019f,0.728820026f,0.729990005f,0.731140018f,0.732270002f,0.73338002f,0.734480023f,0.73556f,0.736630023f,0.737699986f,0.738759995f,0.739820004f,0.740890026f,0.741959989f,0.743049979f,0.744140029f,0.745249987f,0.746370018f,0.747510016f,0.748669982f,0.749849975f,0.751039982f,0.752260029f,0.753499985f,0.754760027f,0.756049991f,0.757350028f,0.758669972f,0.759989977f,0.761330009f,0.762669981f,0.764010012f,0.765339971f,0.766669989f,0.767989993f,0.76928997f,0.770579994f,0.771839976f,0.773079991f,0.774299979f,0.775479972f,0.776629984f,0.777750015f,0.778819978f,0.779839993f,0.780830026f,0.781759977f,0.782660007f,0.783510029f,0.784309983f,0.785070002f,0.785790026f,0.786459982f,0.787090003f,0.787670016f,0.788209975f,0.788709998f,0.789179981f,0.789619982f,0.790030003f,0.790419996f,0.790790021f,0.79114002f,0.791480005f,0.791800022f,0.792129993f,0.792469978f,0.79282999f,0.79321003f,0.793640018f,0.794120014f,0.794659972f,0.795270026f,0.795970023f,0.796750009f,0.797609985f,0.798539996f,0.799539983f,0.800599992f,0.801699996f,0.802839994f,0.80400002f,0.805190027f,0.806379974f,0.807579994f,0.808770001f,0.809970021f,0.811169982f,0.812359989f,0.813560009f,0.814750016f,0.815949976f,0.817139983f,0.818319976f,0.819509983f,0.820689976f,0.821860015f,0.823029995f,0.824190021f,0.825330019f,0.826460004f,0.827579975f,0.828679979f,0.829760015f,0.830820024f,0.831860006f,0.832870007f,0.83385998f,0.834819973f,0.835749984f,0.836650014f,0.837520003f,0.838349998f,0.839150012f,0.840449989f,0.841400027f,0.842350006f,0.843289971f,0.844229996f,0.845160007f,0.846090019f,0.847010016f,0.847930014f,0.848850012f,0.849759996f,0.850660026f,0.85157001f,0.852460027f,0.853349984f,0.85424f,0.855130017f,0.856000006f,0.856880009f,0.857749999f,0.858609974f,0.859480023f,0.860329986f,0.861180007f,0.862030029f,0.862879992f,0.86372f,0.864549994f,0.865379989f,0.866209984f,0.867030025f,0.867850006f,0.868659973f,0.86947f,0.870280027f,0.871079981f,0.871869981f,0.872669995f,0.873449981f,0.874239981f,0.875020027f,0.87579f,0.876559973f,0.877330005f,0.878099978f,0.878849983f,0.879610002f,0.880360007f,0.881110013f,0.881850004f,0.882589996f,0.883329988f,0.884060025f,0.88477999f,0.885510027f,0.886229992f,0.886940002f,0.887650013f,0.888360023f,0.88906002f,0.889760017f,0.890460014f,0.891149998f,0.891839981f,0.89252001f,0.89319998f,0.89388001f,0.894550025f,0.895219982f,0.895889997f,0.89655f,0.897199988f,0.897859991f,0.898509979f,0.899160028f,0.899800003f,0.900439978f,0.901069999f,0.901709974f};
static const float REF_CES30[400] = {0.0304300003f,0.0307669993f,0.0310960002f,0.0314100012f,0.0317149982f,0.0319759995f,0.0320810005f,0.0320140012f,0.0318409987f,0.0316080004f,0.0313460007f,0.031072f,0.0307599995f,0.030398f,0.0299970005f,0.0295640007f,0.0291060004f,0.028686f,0.0283540003f,0.0281240009f,0.0279910006f,0.0279910006f,0.0281440001f,0.0284449998f,0.0288709998f,0.0294269994f,0.0300510004f,0.0306519996f,0.0311459992f,0.0314729996f,0.0315870009f,0.0315289982f,0.0313370004f,0.0310590006f,0.0307710003f,0.0305410009f,0.0303789992f,0.0303179994f,0.0303559992f,0.0304749999f,0.0306819994f,0.0310180001f,0.0315219983f,0.0323349983f,0.0335349999f,0.0351039991f,0.0369950011f,0.0391529985f,0.0414340012f,0.0437779985f,0.0461779982f,0.0486319996f,0.0511160009f,0.0536310002f,0.0561099984f,0.0585770011f,0.0611100011f,0.0638070032f,0.0667589977f,0.0700789988f,0.0737780035f,0.0778089985f,0.082134001f,0.0867709965f,0.0917470008f,0.0971060023f,0.102870002f,0.108999997f,0.115379997f,0.121890001f,0.128429994f,0.13493f,0.141399994f,0.147860005f,0.154310003f,0.160710007f,0.166989997f,0.17306f,0.178819999f,0.184249997f,0.189449996f,0.194429994f,0.199239999f,0.203960001f,0.2086f,0.213009998f,0.217130005f,0.220950007f,0.224409997f,0.227489993f,0.230250001f,0.232659996f,0.234699994f,0.236359999f,0.237650007f,0.238600001f,0.239399999f,0.240180001f,0.241029993f,0.242009997f,0.243129998f,0.244340003f,0.245590001f,0.246900007f,0.248270005f,0.249699995f,0.251170009f,0.252689987f,0.254189998f,0.255679995f,0.257149994f,0.258630008f,0.26008001f,0.261530012f,0.26293999f,0.264319986f,0.265650004f,0.266930014f,0.268150002f,0.269230008f,0.270110011f,0.270740002f,0.271129996f,0.271349996f,0.271459997f,0.27155f,0.271670014f,0.271789998f,0.271890014f,0.271950006f,0.272000015f,0.272080004f,0.272269994f,0.272579998f,0.273009986f,0.273530006f,0.274089992f,0.274639994f,0.275200009f,0.275750011f,0.276300013f,0.276829988f,0.277330011f,0.277709991f,0.277999997f,0.278189987f,0.278310001f,0.278409988f,0.278499991f,0.278569996f,0.278620005f,0.278649986f,0.278659999f,0.278679997f,0.278759986f,0.278890014f,0.279040009f,0.279190004f,0.279309988f,0.279410005f,0.279549986f,0.279769987f,0.280110002f,0.280580014f,0.281129986f,0.281729996f,0.282359987f,0.28301999f,0.283719987f,0.284469992f,0.285239995f,0.285979986f,0.286669999f,0.28727001f,0.287809998f,0.288329989f,0.288879991f,0.289490014f,0.290179998f,0.29095f,0.291770011f,0.292640001f,0.293550014f,0.294530004f,0.295569986f,0.296640009f,0.297719985f,0.298779994f,0.299769998f,0.300700009f,0.301539987f,0.302320004f,0.303050011f,0.303739995f,0.304399997f,0.305070013f,0.305750012f,0.306439996f,0.307150006f,0.307920009f,0.308710009f,0.309540004f,0.31042999f,0.311369985f,0.312350005f,0.3134f,0.314469993f,0.31558001f,0.316720009f,0.317880005f,0.319029987f,0.320239991f,0.321469992f,0.322699994f,0.323909998f,0.325089991f,0.326180011f,0.327179998f,0.328090012f,0.328940004f,0.329739988f,0.330540001f,0.331319988f,0.332120001f,0.33296001f,0.333880007f,0.334859997f,0.335900009f,0.336970001f,0.338f,0.338939995f,0.339740008f,0.340429991f,0.341039985f,0.341630012f,0.342200011f,0.34277001f,0.343320012f,0.343800008f,0.344179988f,0.344509989f,0.34483999f,0.345209986f,0.34562999f,0.34612f,0.34661001f,0.34702f,0.347290009f,0.347479999f,0.347629994f,0.347790003f,0.348080009f,0.348500013f,0.349029988f,0.349680007f,0.350400001f,0.35115999f,0.351980001f,0.352860004f,0.353670001f,0.354380012f,0.354930013f,0.355199993f,0.35521999f,0.355089992f,0.354849994f,0.354550004f,0.354250014f,0.353949994f,0.35363999f,0.353379995f,0.353190005f,0.35315001f,0.353309989f,0.353630006f,0.354030013f,0.354479998f,0.354880005f,0.355150014f,0.355369985f,0.355610013f,0.355919987f,0.35642001f,0.357059985f,0.357789993f,0.358520001f,0.35916999f,0.35958001f,0.359789997f,0.359840006f,0.359710008f,0.359439999f,0.359100014f,0.358649999f,0.358069986f,0.357389987f,0.356640011f,0.355890006f,0.355250001f,0.354770005f,0.354490012f,0.354369998f,0.354270011f,0.354110003f,0.353909999f,0.353729993f,0.353659987f,0.35383001f,0.354220003f,0.354759991f,0.355399996f,0.356090009f,0.356819987f,0.35769999f,0.35879001f,0.36074999f,0.361580014f,0.362289995f,0.363409996f,0.365139991f,0.365139991f,0.365920007f,0.366829991f,0.367749989f,0.368669987f,0.369590014f,0.370510012f,0.37143001f,0.372350007f,0.373270005f,0.374190003f,0.375120014f,0.376040012f,0.376969993f,0.377900004f,0.378820002f,0.379750013f,0.380679995f,0.381610006f,0.382539988f,0.383480012f,0.384409994f,0.385340005f,0.38628f,0.387210011f,0.388150007f,0.389090002f,0.390029997f,0.390960008f,0.391900003f,0.392839998f,0.393790007f,0.394730002f,0.395669997f,0.396609992f,0.39756f,0.398499995f,0.399450004f,0.400400013f,0.401340008f,0.402289987f,0.403239995f,0.404190004f,0.405140013f,0.406089991f,0.40704f,0.407999992f,0.408950001f,0.40990001f,0.410860002f,0.411810011f,0.412770003f,0.413720012f,0.414680004f,0.415639997f,0.416599989f,0.417560011f,0.418520004f,0.419479996f,0.420439988f,0.421400011f,0.422360003f,0.423319995f,0.424290001f,0.425249994f,0.42622f,0.427179992f,0.428149998f,0.429109991f,0.430079997f,0.431050003f,0.432009995f,0.432980001f,0.433950007f,0.434920013f,0.435889989f,0.436859995f,0.437830001f,0.438800007f,0.439770013f};
static const float REF_CES31[400] = {0.0440099984f,0.0438239984f,0.0437050015f,0.0436509997f,0.0436609983f,0.0437339991f,0.0438680016f,0.0440619998f,0.0443140008f,0.0446240008f,0.0449899994f,0.0454099998f,0.0458839983f,0.0464089997f,0.0469839983f,0.0476090014f,0.0482809991f,0.0489999987f,0.0497630015f,0.0505709983f,0.0514199995f,0.0523100011f,0.0532389991f,0.0542050004f,0.0552049987f,0.0562379993f,0.0573019981f,0.0583939999f,0.0595120005f,0.0606550016f,0.0618200004f,0.0630069971f,0.0642199963f,0.065467f,0.0667539984f,0.0680880025f,0.0694750026f,0.0709220022f,0.0724359974f,0.0740230009f,0.0756900012f,0.0774419978f,0.0792810023f,0.0812069997f,0.0832189992f,0.0853179991f,0.0875039995f,0.0897770002f,0.0921379998f,0.0945850015f,0.0971200019f,0.0997420028f,0.102449998f,0.105240002f,0.108120002f,0.111079998f,0.114129998f,0.117250003f,0.120460004f,0.123740003f,0.127100006f,0.130539998f,0.134059995f,0.137659997f,0.141350001f,0.145129994f,0.149000004f,0.15298f,0.157049999f,0.161219999f,0.165509999f,0.1699f,0.17441f,0.179010004f,0.183709994f,0.188500002f,0.19337f,0.19833f,0.203360006f,0.208470002f,0.213640004f,0.218879998f,0.224189997f,0.229609996f,0.235139996f,0.240810007f,0.246639997f,0.252640009f,0.258839995f,0.265249997f,0.271890014f,0.278780013f,0.285879999f,0.293159992f,0.300590008f,0.308129996f,0.315739989f,0.323390007f,0.331039995f,0.338660002f,0.346210003f,0.353670001f,0.361039996f,0.368369997f,0.37568f,0.382990003f,0.390329987f,0.397729993f,0.405209988f,0.412809998f,0.420549989f,0.428449988f,0.436470002f,0.444590002f,0.452769995f,0.460970014f,0.469159991f,0.477290004f,0.485329986f,0.493250012f,0.501010001f,0.508580029f,0.515950024f,0.523140013f,0.53016001f,0.537020028f,0.543709993f,0.550260007f,0.556659997f,0.562929988f,0.569079995f,0.575110018f,0.581009984f,0.586769998f,0.592390001f,0.597859979f,0.603169978f,0.608309984f,0.613259971f,0.618030012f,0.622600019f,0.626969993f,0.631139994f,0.635140002f,0.638970017f,0.642639995f,0.646179974f,0.649590015f,0.652890027f,0.656090021f,0.659210026f,0.662249982f,0.665220022f,0.668129981f,0.670960009f,0.673730016f,0.676419973f,0.679059982f,0.681620002f,0.684130013f,0.686569989f,0.688950002f,0.691269994f,0.693530023f,0.695739985f,0.697899997f,0.700010002f,0.702080011f,0.704110026f,0.706089973f,0.708039999f,0.709959984f,0.711839974f,0.713699996f,0.715529978f,0.717339993f,0.71912998f,0.720899999f,0.722660005f,0.724409997f,0.726149976f,0.727890015f,0.729610026f,0.731320024f,0.733009994f,0.734669983f,0.736299992f,0.737900019f,0.739449978f,0.740960002f,0.742410004f,0.743809998f,0.74515003f,0.746460021f,0.747720003f,0.748950005f,0.750150025f,0.751339972f,0.752510011f,0.753679991f,0.754840016f,0.756009996f,0.757179976f,0.758360028f,0.759530008f,0.760699987f,0.761870027f,0.763040006f,0.764190018f,0.765339971f,0.766480029f,0.7676f,0.768710017f,0.769800007f,0.770860016f,0.771899998f,0.772909999f,0.773880005f,0.774810016f,0.775699973f,0.776549995f,0.777350008f,0.778110027f,0.778819978f,0.779510021f,0.780170023f,0.780809999f,0.781430006f,0.78204f,0.782649994f,0.783259988f,0.783869982f,0.784500003f,0.78512001f,0.785759985f,0.786409974f,0.787060022f,0.787720025f,0.788399994f,0.789080024f,0.789780021f,0.790489972f,0.791199982f,0.79193002f,0.792649984f,0.793380022f,0.79411f,0.794830024f,0.795539975f,0.796249986f,0.796940029f,0.797619998f,0.798269987f,0.798910022f,0.799530029f,0.800119996f,0.800689995f,0.80122f,0.801729977f,0.802200019f,0.802640021f,0.803040028f,0.803420007f,0.803770006f,0.804109991f,0.804449975f,0.80479002f,0.805149972f,0.805530012f,0.805949986f,0.806400001f,0.806900024f,0.807439983f,0.808000028f,0.808579981f,0.809159994f,0.809729993f,0.810280025f,0.810800016f,0.811280012f,0.811699986f,0.812059999f,0.812359989f,0.812619984f,0.812839985f,0.813019991f,0.813199997f,0.813359976f,0.813520014f,0.813690007f,0.813880026f,0.814100027f,0.814339995f,0.814620018f,0.814909995f,0.815240026f,0.815590024f,0.81595999f,0.816359997f,0.816779971f,0.817219973f,0.817680001f,0.818159997f,0.818650007f,0.819159985f,0.819660008f,0.820169985f,0.820680022f,0.821179986f,0.821669996f,0.822149992f,0.822610021f,0.823050022f,0.82348001f,0.823889971f,0.824289978f,0.824679971f,0.825049996f,0.825410008f,0.82577002f,0.826110005f,0.82644999f,0.826770008f,0.827090025f,0.827400029f,0.827690005f,0.827979982f,0.828249991f,0.828509986f,0.828760028f,0.828989983f,0.829209983f,0.829410017f,0.829599977f,0.829770029f,0.829930007f,0.830070019f,0.830200016f,0.830309987f,0.83039999f,0.83047998f,0.830540001f,0.830579996f,0.830609977f,0.830609977f,0.830600023f,0.830569983f,0.830519974f,0.830449998f,0.830370009f,0.830259979f,0.830550015f,0.830560029f,0.830579996f,0.83059001f,0.830600023f,0.830619991f,0.830630004f,0.830649972f,0.830659986f,0.830669999f,0.830690026f,0.83069998f,0.830720007f,0.830730021f,0.830739975f,0.830760002f,0.830770016f,0.830789983f,0.830799997f,0.83081001f,0.830829978f,0.830839992f,0.830850005f,0.830869973f,0.830879986f,0.830900013f,0.830910027f,0.830919981f,0.830940008f,0.830950022f,0.830969989f,0.830980003f,0.830990016f,0.831009984f,0.831019998f,0.831030011f,0.831049979f,0.831059992f,0.831080019f,0.831089973f,0.831099987f,0.831120014f,0.831130028f,0.831149995f,0.831160009f,0.831170022f,0.83118999f,0.831200004f,0.831210017f};
static const float REF_CES32[400] = {0.0462770015f,0.046103999f,0.0459310003f,0.0457589999f,0.0455869995f,0.0454160012f,0.0452460013f,0.0450769998f,0.0449079983f,0.0447390005f,0.0445710011f,0.044404f,0.044236999f,0.0440710001f,0.0439059995f,0.043740999f,0.0435770005f,0.0434129983f,0.0432499982f,0.0430880003f,0.0428999998f,0.0427789986f,0.0426280014f,0.0424529985f,0.0422610007f,0.0420579985f,0.041850999f,0.0416450016f,0.0414469987f,0.0412629992f,0.0410999991f,0.0409630015f,0.0408519991f,0.0407700017f,0.0407150015f,0.040688999f,0.0406920016f,0.0407240018f,0.0407860018f,0.0408780016f,0.0410000011f,0.0411529988f,0.0413380004f,0.0415549986f,0.0418040007f,0.0420860015f,0.0423999988f,0.0427489989f,0.0431310013f,0.0435479991f,0.0439999998f,0.0444869995f,0.0450100005f,0.0455680005f,0.0461630002f,0.0467929989f,0.0474609993f,0.048165001f,0.0489059985f,0.0496839993f,0.0505000018f,0.0513539985f,0.0522489995f,0.0531889983f,0.0541770011f,0.0552159995f,0.0563100018f,0.057461001f,0.0586749986f,0.0599530004f,0.0612999983f,0.0627179965f,0.0642089993f,0.0657740012f,0.0674140006f,0.0691310018f,0.0709249973f,0.0727979988f,0.0747509971f,0.0767839998f,0.0789000019f,0.0810990036f,0.0833839998f,0.0857559964f,0.0882190019f,0.0907730013f,0.0934209973f,0.0961659998f,0.0990089998f,0.101949997f,0.104999997f,0.108149998f,0.111409999f,0.114770003f,0.11823f,0.121799998f,0.125479996f,0.129250005f,0.133129999f,0.137109995f,0.141200006f,0.145390004f,0.149670005f,0.154049993f,0.158519998f,0.163069993f,0.167699993f,0.172399998f,0.177169994f,0.181999996f,0.186900005f,0.191850007f,0.19686f,0.201910004f,0.20702f,0.212180004f,0.217390001f,0.222650006f,0.227950007f,0.2333f,0.238700002f,0.244139999f,0.249630004f,0.255160004f,0.260740012f,0.266360015f,0.272029996f,0.277749985f,0.283520013f,0.289339989f,0.29519999f,0.301109999f,0.307069987f,0.313069999f,0.319110006f,0.32517001f,0.331259996f,0.337379992f,0.343510002f,0.349649996f,0.355800003f,0.36195001f,0.368099988f,0.374229997f,0.380349994f,0.386440009f,0.39249f,0.398499995f,0.404460013f,0.410360008f,0.416200012f,0.421959996f,0.427639991f,0.433219999f,0.438679993f,0.444020003f,0.449209988f,0.454250008f,0.459120005f,0.463809997f,0.468300015f,0.472579986f,0.47665f,0.480509996f,0.484140009f,0.487560004f,0.490759999f,0.493730009f,0.496479988f,0.499009997f,0.501299977f,0.503359973f,0.505200028f,0.506820023f,0.508220017f,0.509410024f,0.510399997f,0.511179984f,0.511780024f,0.512179971f,0.512399971f,0.512440026f,0.512319982f,0.512059987f,0.511650026f,0.511129975f,0.510500014f,0.509769976f,0.508970022f,0.508109987f,0.507200003f,0.506250024f,0.505289972f,0.504299998f,0.503319979f,0.502349973f,0.50138998f,0.500469983f,0.499590009f,0.498760015f,0.497999996f,0.497310013f,0.496679991f,0.496109992f,0.495599985f,0.495119989f,0.494679987f,0.494269997f,0.49386999f,0.493479997f,0.493099988f,0.492709994f,0.492300004f,0.49188f,0.491420001f,0.490929991f,0.490379989f,0.489789993f,0.48912999f,0.488400012f,0.487599999f,0.486710012f,0.48574999f,0.484710008f,0.483619988f,0.48247999f,0.481290013f,0.480069995f,0.47883001f,0.477569997f,0.476300001f,0.475039989f,0.47378999f,0.472570002f,0.471410006f,0.470299989f,0.469280005f,0.468349993f,0.467539996f,0.466850013f,0.466300011f,0.465909988f,0.465689987f,0.465660006f,0.465840012f,0.466230005f,0.466859996f,0.467729986f,0.468870014f,0.470290005f,0.472000003f,0.474020004f,0.476339996f,0.478980005f,0.481929988f,0.485179991f,0.488750011f,0.492619991f,0.496800005f,0.501299977f,0.506099999f,0.511210024f,0.51661998f,0.522310019f,0.528259993f,0.534470022f,0.540920019f,0.547590017f,0.554470003f,0.561540008f,0.568799973f,0.576219976f,0.583779991f,0.591449976f,0.59920001f,0.60698998f,0.61480999f,0.622619987f,0.630389988f,0.638090014f,0.645699978f,0.653180003f,0.660539985f,0.667750001f,0.674820006f,0.681729972f,0.688489974f,0.695079982f,0.701499999f,0.707740009f,0.713800013f,0.719669998f,0.725359976f,0.730889976f,0.73627001f,0.741509974f,0.746640027f,0.751649976f,0.756579995f,0.761420012f,0.766200006f,0.770929992f,0.775619984f,0.780279994f,0.784919977f,0.78956002f,0.794210017f,0.798879981f,0.803569973f,0.808309972f,0.81309998f,0.817939997f,0.822780013f,0.827530026f,0.832140028f,0.836520016f,0.840610027f,0.844340026f,0.84762001f,0.850399971f,0.852599978f,0.855939984f,0.858780026f,0.861559987f,0.864300013f,0.86698997f,0.869639993f,0.872240007f,0.874800026f,0.877319992f,0.879790008f,0.88221997f,0.884599984f,0.886950016f,0.88924998f,0.89151001f,0.893729985f,0.895910025f,0.89805001f,0.900150001f,0.902209997f,0.904229999f,0.906220019f,0.908169985f,0.910080016f,0.911960006f,0.913800001f,0.915610015f,0.917379975f,0.919120014f,0.920830011f,0.922500014f,0.924139977f,0.925750017f,0.927320004f,0.928870022f,0.930379987f,0.931869984f,0.933319986f,0.934750021f,0.936150014f,0.937520027f,0.938859999f,0.940180004f,0.941470027f,0.94273001f,0.943970025f,0.945179999f,0.946370006f,0.947529972f,0.94867003f,0.949790001f,0.950879991f,0.951950014f,0.953000009f,0.954029977f,0.955030024f,0.956009984f,0.95697999f,0.957920015f,0.958850026f,0.959749997f,0.960640013f,0.961499989f,0.962350011f,0.963180006f,0.963989973f,0.964789987f,0.965569973f,0.966329992f,0.967069983f,0.967800021f,0.968519986f,0.969219983f,0.969900012f,0.970570028f,0.971220016f,0.971859992f,0.972490013f,0.973100007f};
static const float REF_CES33[400] = {0.173150003f,0.174480006f,0.175789997f,0.177059993f,0.178310007f,0.179550007f,0.180759996f,0.181960002f,0.183149993f,0.184330001f,0.185509995f,0.186690003f,0.187869996f,0.189060003f,0.190259993f,0.191469997f,0.192709997f,0.193959996f,0.195230007f,0.196539998f,0.197870001f,0.199239999f,0.200619996f,0.202000007f,0.203370005f,0.204699993f,0.205980003f,0.207190007f,0.208309993f,0.209330007f,0.210229993f,0.210999995f,0.211659998f,0.212229997f,0.212740004f,0.213210002f,0.21367f,0.214149997f,0.214680001f,0.215269998f,0.215949997f,0.216749996f,0.217659995f,0.218700007f,0.219850004f,0.22112f,0.222499996f,0.224010006f,0.22563f,0.227359995f,0.229210004f,0.231179997f,0.233280003f,0.235550001f,0.237990007f,0.240630001f,0.243499994f,0.246619999f,0.249990001f,0.253659993f,0.257640004f,0.261949986f,0.266600013f,0.271629989f,0.277029991f,0.28283f,0.289050013f,0.295700014f,0.3028f,0.310360014f,0.318410009f,0.32694f,0.335920006f,0.345270008f,0.354939997f,0.364870012f,0.375f,0.38527f,0.395619988f,0.405990005f,0.416310012f,0.426539987f,0.436670005f,0.446669996f,0.456559986f,0.466320008f,0.475930005f,0.485410005f,0.494729996f,0.503899992f,0.512899995f,0.521719992f,0.530340016f,0.538730025f,0.546840012f,0.554660022f,0.562139988f,0.569249988f,0.575969994f,0.582260013f,0.588090003f,0.593439996f,0.598320007f,0.602760017f,0.606809974f,0.610480011f,0.613799989f,0.616810024f,0.619530022f,0.621999979f,0.624239981f,0.626290023f,0.62816f,0.629909992f,0.63154f,0.633099973f,0.634609997f,0.636110008f,0.637619972f,0.639169991f,0.640789986f,0.642509997f,0.644320011f,0.646210015f,0.648159981f,0.650179982f,0.652230024f,0.654320002f,0.65644002f,0.658559978f,0.660679996f,0.66279f,0.664879978f,0.666949987f,0.668990016f,0.671010017f,0.672990024f,0.674929976f,0.676829994f,0.678680003f,0.680480003f,0.682229996f,0.68392998f,0.685580015f,0.687210023f,0.688809991f,0.690400004f,0.691969991f,0.693549991f,0.695129991f,0.696720004f,0.698329985f,0.699959993f,0.701600015f,0.703239977f,0.704890013f,0.706520021f,0.708140016f,0.709739983f,0.711319983f,0.712870002f,0.714380026f,0.715849996f,0.717289984f,0.718670011f,0.720009983f,0.721300006f,0.722530007f,0.723710001f,0.724820018f,0.725880027f,0.72687f,0.727810025f,0.728720009f,0.729600012f,0.730480015f,0.731360018f,0.732259989f,0.73319f,0.73417002f,0.735220015f,0.736339986f,0.737519979f,0.738740027f,0.739979982f,0.741230011f,0.74247998f,0.743690014f,0.744859993f,0.745959997f,0.746990025f,0.747919977f,0.748769999f,0.749539971f,0.750249982f,0.750909984f,0.751529992f,0.752120018f,0.752690017f,0.753260016f,0.753830016f,0.754419982f,0.755020022f,0.75563997f,0.756280005f,0.75691998f,0.757570028f,0.758220017f,0.758880019f,0.759549975f,0.760209978f,0.76086998f,0.761539996f,0.762210011f,0.762899995f,0.763610005f,0.764349997f,0.765110016f,0.765910029f,0.766749978f,0.767629981f,0.768559992f,0.769540012f,0.770550013f,0.771589994f,0.772650003f,0.773720026f,0.774789989f,0.775870025f,0.776929975f,0.777970016f,0.778989971f,0.77996999f,0.780929983f,0.781840026f,0.782710016f,0.783529997f,0.784309983f,0.785019994f,0.785679996f,0.786270022f,0.786800027f,0.787259996f,0.787689984f,0.788070023f,0.788439989f,0.788789988f,0.789129972f,0.789489985f,0.789870024f,0.790279984f,0.79073f,0.791209996f,0.791719973f,0.792249978f,0.792779982f,0.793309987f,0.793839991f,0.794350028f,0.794830024f,0.79527998f,0.79569f,0.796060026f,0.796410024f,0.796739995f,0.797060013f,0.797370017f,0.797689974f,0.798030019f,0.798380017f,0.79877001f,0.799189985f,0.799650013f,0.80013001f,0.800639987f,0.801180005f,0.801739991f,0.802320004f,0.80290997f,0.80351001f,0.804120004f,0.804740012f,0.805350006f,0.805970013f,0.806580007f,0.807179987f,0.807770014f,0.808350027f,0.808899999f,0.809440017f,0.809949994f,0.81042999f,0.810890019f,0.81133002f,0.811749995f,0.812150002f,0.812539995f,0.812919974f,0.81329f,0.813660026f,0.814029992f,0.814400017f,0.814769983f,0.815150023f,0.815540016f,0.815930009f,0.816340029f,0.81674999f,0.817179978f,0.817619979f,0.818069994f,0.818539977f,0.819029987f,0.819519997f,0.820029974f,0.820550025f,0.821080029f,0.821619987f,0.822160006f,0.822709978f,0.823260009f,0.823809981f,0.824360013f,0.824899971f,0.825429976f,0.825929999f,0.826420009f,0.826879978f,0.827300012f,0.827690005f,0.828040004f,0.828339994f,0.828610003f,0.828840017f,0.829050004f,0.829240024f,0.829429984f,0.829620004f,0.829819977f,0.830030024f,0.830269992f,0.830540001f,0.830860019f,0.831219971f,0.831640005f,0.832130015f,0.832679987f,0.833320022f,0.83405f,0.834879994f,0.835810006f,0.835219979f,0.835650027f,0.836080015f,0.836499989f,0.836929977f,0.837350011f,0.837779999f,0.838199973f,0.838620007f,0.839039981f,0.839460015f,0.83987999f,0.840300024f,0.840719998f,0.841139972f,0.841549993f,0.841970026f,0.842379987f,0.842790008f,0.843209982f,0.843620002f,0.844030023f,0.844439983f,0.844850004f,0.84525001f,0.845659971f,0.846069992f,0.846469998f,0.846880019f,0.847280025f,0.847679973f,0.848089993f,0.84849f,0.848890007f,0.849290013f,0.849680007f,0.850080013f,0.85048002f,0.850870013f,0.85127002f,0.851660013f,0.85206002f,0.852450013f,0.852840006f,0.85323f,0.853619993f,0.854009986f,0.854399979f,0.854780018f};
static const float REF_CES34[400] = {0.0435420014f,0.0435589999f,0.0435759984f,0.0435930006f,0.0436099991f,0.0436270013f,0.0436439998f,0.0436609983f,0.0436780006f,0.0436949991f,0.0437120013f,0.0437289998f,0.0437459983f,0.0437630005f,0.043779999f,0.0437970012f,0.0438139997f,0.0438309982f,0.0438480005f,0.0438660011f,0.0438850001f,0.0438980013f,0.0439149998f,0.0439330004f,0.0439530015f,0.0439720005f,0.0439909995f,0.0440090001f,0.0440229997f,0.0440340005f,0.0440399982f,0.0440410003f,0.0440369993f,0.0440310016f,0.0440220013f,0.0440119989f,0.0440029986f,0.0439959988f,0.0439920016f,0.0439909995f,0.0439959988f,0.0440069996f,0.0440240018f,0.0440470017f,0.044075001f,0.0441079997f,0.0441449992f,0.0441869982f,0.0442319997f,0.04428f,0.0443309993f,0.044383999f,0.0444409996f,0.0445009992f,0.0445670001f,0.0446380004f,0.0447160006f,0.0448019989f,0.0448959991f,0.0449989997f,0.0451119989f,0.045237001f,0.0453750007f,0.0455279984f,0.0456990004f,0.0458890013f,0.0461010002f,0.046337001f,0.0465990007f,0.0468900017f,0.0472100005f,0.0475630015f,0.0479440019f,0.0483519994f,0.0487810001f,0.0492299981f,0.0496940017f,0.050170999f,0.0506559983f,0.0511460006f,0.0516390018f,0.0521319993f,0.0526320003f,0.0531489998f,0.0536909997f,0.0542659983f,0.054885f,0.0555550009f,0.0562850013f,0.057085f,0.0579629987f,0.0589260012f,0.0599739999f,0.0611050017f,0.0623180009f,0.0636110008f,0.064981997f,0.0664289966f,0.0679510012f,0.0695450008f,0.0712099969f,0.0729449987f,0.074752003f,0.0766320005f,0.0785889998f,0.0806249976f,0.0827419981f,0.0849419981f,0.0872280002f,0.0896029994f,0.0920680016f,0.094626002f,0.097273998f,0.10001f,0.10283f,0.105729997f,0.108719997f,0.111769997f,0.114909999f,0.118110001f,0.121380001f,0.12472f,0.128140002f,0.131659999f,0.135289997f,0.139060006f,0.142979994f,0.147060007f,0.151329994f,0.155790001f,0.160479993f,0.16539f,0.170530006f,0.175889999f,0.181480005f,0.187270001f,0.193279997f,0.199489996f,0.205909997f,0.212520003f,0.219319999f,0.226300001f,0.233400002f,0.240549996f,0.247690007f,0.25474f,0.261640012f,0.268330008f,0.274729997f,0.280790001f,0.286419988f,0.291579992f,0.296279997f,0.300529987f,0.304369986f,0.307799995f,0.310860008f,0.313560009f,0.315930009f,0.317979991f,0.319750011f,0.321240008f,0.322490007f,0.323520005f,0.324339986f,0.324970007f,0.325450003f,0.325800002f,0.326020002f,0.32615f,0.326209992f,0.326220006f,0.326180011f,0.326090008f,0.32596001f,0.325789988f,0.325590014f,0.325349987f,0.325080007f,0.324779987f,0.32446f,0.324110001f,0.323749989f,0.323359996f,0.322950006f,0.322530001f,0.32209f,0.321630001f,0.321159989f,0.320690006f,0.320199996f,0.319700003f,0.319189996f,0.318670005f,0.318150014f,0.317620009f,0.317079991f,0.316529989f,0.315979987f,0.315420002f,0.314859986f,0.314280003f,0.313699991f,0.313109994f,0.3125f,0.311890006f,0.311250001f,0.310589999f,0.309920013f,0.309210002f,0.308490008f,0.307729989f,0.306950003f,0.306140006f,0.305299997f,0.304430008f,0.303539991f,0.302619994f,0.301679999f,0.300709993f,0.299710006f,0.298680007f,0.297639996f,0.296579987f,0.295509994f,0.294429988f,0.293359995f,0.292290002f,0.291229993f,0.290190011f,0.289169997f,0.28817001f,0.287200004f,0.286260009f,0.285340011f,0.284460008f,0.283589989f,0.282759994f,0.281960011f,0.281179994f,0.280429989f,0.279709995f,0.279020011f,0.278349996f,0.277700007f,0.277069986f,0.276459992f,0.275860012f,0.275279999f,0.274699986f,0.27414f,0.273580015f,0.273030013f,0.272480011f,0.271950006f,0.271409988f,0.270889997f,0.270370007f,0.269859999f,0.269349992f,0.268849999f,0.268359989f,0.267879993f,0.267399997f,0.266939998f,0.266490012f,0.266050011f,0.265639991f,0.26523f,0.264849991f,0.264490008f,0.264149994f,0.26383999f,0.26354f,0.263269991f,0.263029993f,0.262800008f,0.262600005f,0.262419999f,0.26225999f,0.262129992f,0.262019992f,0.261940002f,0.26188001f,0.261849999f,0.261860013f,0.261900008f,0.261990011f,0.262109995f,0.262270004f,0.262479991f,0.262739986f,0.263029993f,0.263359994f,0.263720006f,0.264099985f,0.264499992f,0.264899999f,0.265309989f,0.265700012f,0.266090006f,0.266460001f,0.266820014f,0.267159998f,0.267509997f,0.267859995f,0.268209994f,0.26857999f,0.268970013f,0.269380003f,0.269809991f,0.270280004f,0.270779997f,0.271279991f,0.271780014f,0.272280008f,0.27274999f,0.273180008f,0.273570001f,0.273909986f,0.274170011f,0.274589986f,0.274949998f,0.275299996f,0.275660008f,0.27601999f,0.276380002f,0.276740015f,0.277099997f,0.277460009f,0.277819991f,0.278180003f,0.278539985f,0.278899997f,0.279269993f,0.279630005f,0.279989988f,0.28035f,0.280710012f,0.281080008f,0.28143999f,0.281800002f,0.282169998f,0.28253001f,0.282900006f,0.283259988f,0.283630013f,0.283989996f,0.284359992f,0.284720004f,0.285089999f,0.285450011f,0.285820007f,0.286190003f,0.286559999f,0.286920011f,0.287290007f,0.287660003f,0.288029999f,0.288399994f,0.288760006f,0.289130002f,0.289499998f,0.289869994f,0.29023999f,0.290609986f,0.290980011f,0.291350007f,0.291729987f,0.292100012f,0.292470008f,0.292840004f,0.29321f,0.293590009f,0.293960005f,0.294330001f,0.294699997f,0.295080006f,0.295450002f,0.295830011f,0.296200007f,0.296579987f,0.296950012f,0.297329992f,0.297699988f,0.298079997f,0.298449993f,0.298830003f,0.299210012f,0.299580008f,0.299959987f,0.300339997f,0.300720006f,0.301090002f,0.301470011f,0.301849991f,0.30223f,0.30261001f,0.30298999f,0.303369999f};
static const float REF_CES35[400] = {0.0526509993f,0.0526410006f,0.0526309982f,0.0526209995f,0.0526110008f,0.0526009984f,0.0525909998f,0.0525810011f,0.0525709987f,0.052561f,0.0525519997f,0.052542001f,0.0525319986f,0.0525219999f,0.0525120012f,0.0525019988f,0.0524920002f,0.0524820015f,0.0524719991f,0.0524620004f,0.0524489991f,0.0524439998f,0.0524360016f,0.0524250008f,0.0524090007f,0.0523880012f,0.0523599982f,0.0523249991f,0.0522820018f,0.0522289984f,0.052166f,0.0520920008f,0.0520079993f,0.051913999f,0.0518120006f,0.0517029986f,0.0515870005f,0.0514659993f,0.0513410009f,0.0512120016f,0.0510799997f,0.0509469993f,0.050813999f,0.0506800003f,0.050547f,0.0504150018f,0.0502850004f,0.0501589999f,0.0500349998f,0.0499159992f,0.0498020016f,0.0496940017f,0.0495910011f,0.0494939983f,0.0494030006f,0.0493180007f,0.0492400005f,0.0491680019f,0.0491020009f,0.0490420014f,0.0489890017f,0.0489430018f,0.0489040017f,0.0488720015f,0.0488459989f,0.0488279983f,0.0488170013f,0.0488130003f,0.0488159992f,0.048827f,0.0488450006f,0.0488709994f,0.0489029996f,0.0489410013f,0.0489839986f,0.0490310006f,0.0490810014f,0.049132999f,0.0491859987f,0.0492389984f,0.0492919981f,0.0493430011f,0.0493969992f,0.0494549982f,0.0495229997f,0.0496019982f,0.0496959984f,0.0498090014f,0.0499439985f,0.0501050018f,0.0502940007f,0.0505149998f,0.0507720001f,0.051066f,0.0513999984f,0.0517770015f,0.0521989986f,0.0526699983f,0.0531920008f,0.0537669994f,0.0543989986f,0.0550890006f,0.0558359995f,0.0566399992f,0.0574980006f,0.0584079996f,0.0593709983f,0.0603829995f,0.0614439994f,0.0625519976f,0.0637049973f,0.0649010018f,0.0661339983f,0.0673969984f,0.0686829984f,0.0699850023f,0.0712950006f,0.0726070032f,0.0739130005f,0.0752070025f,0.0764809996f,0.07773f,0.0789510012f,0.080144003f,0.0813079998f,0.0824410021f,0.083544001f,0.0846140012f,0.0856520012f,0.0866570026f,0.0876270011f,0.0885649994f,0.089482002f,0.0903929994f,0.091312997f,0.0922570005f,0.0932400003f,0.0942760035f,0.0953809991f,0.0965680033f,0.0978529975f,0.0992460027f,0.100740001f,0.102320001f,0.103979997f,0.105700001f,0.107479997f,0.109289996f,0.111129999f,0.112989999f,0.11485f,0.116700001f,0.118529998f,0.12032f,0.122060001f,0.123719998f,0.125300005f,0.126780003f,0.128140002f,0.129370004f,0.130449995f,0.131380007f,0.132149994f,0.132780001f,0.133289993f,0.133680001f,0.133959994f,0.134149998f,0.134259999f,0.134299994f,0.134279996f,0.134210005f,0.134100005f,0.133949995f,0.133770004f,0.133550003f,0.133310005f,0.133049995f,0.132760003f,0.132459998f,0.132159993f,0.131840006f,0.131520003f,0.131200001f,0.13087f,0.130539998f,0.130209997f,0.129869998f,0.129529998f,0.129199997f,0.128859997f,0.128529996f,0.128199995f,0.127869993f,0.127529994f,0.127200007f,0.126870006f,0.126540005f,0.126210004f,0.125870004f,0.125540003f,0.125200003f,0.124860004f,0.124509998f,0.124159999f,0.123810001f,0.123450004f,0.123089999f,0.122720003f,0.122340001f,0.121959999f,0.121569999f,0.121169999f,0.120760001f,0.120350003f,0.11992f,0.119489998f,0.119050004f,0.118600003f,0.118139997f,0.11767f,0.117190003f,0.116700001f,0.116209999f,0.115709998f,0.115220003f,0.11473f,0.114239998f,0.113760002f,0.113289997f,0.112829998f,0.112379998f,0.111950003f,0.111529998f,0.111129999f,0.110739999f,0.110359997f,0.109990001f,0.109630004f,0.109279998f,0.108939998f,0.108609997f,0.108290002f,0.107979998f,0.10768f,0.107380003f,0.107089996f,0.106799997f,0.106519997f,0.106250003f,0.105980001f,0.10571f,0.105449997f,0.105190001f,0.104929999f,0.104680002f,0.104429998f,0.104189999f,0.103950001f,0.103710003f,0.103490002f,0.103260003f,0.103040002f,0.10283f,0.102619998f,0.102420002f,0.102229998f,0.10204f,0.101860002f,0.1017f,0.101539999f,0.101389997f,0.10125f,0.101120003f,0.100989997f,0.100879997f,0.100769997f,0.100670002f,0.100579999f,0.100489996f,0.100409999f,0.100340001f,0.100270003f,0.100210004f,0.100160003f,0.100120001f,0.100100003f,0.100100003f,0.100110002f,0.100139998f,0.100189999f,0.100259997f,0.100359999f,0.10046f,0.100579999f,0.100709997f,0.100840002f,0.10097f,0.101089999f,0.101209998f,0.10131f,0.101400003f,0.10148f,0.101549998f,0.101620004f,0.101680003f,0.101750001f,0.10182f,0.101910003f,0.102009997f,0.102130003f,0.10227f,0.102420002f,0.102590002f,0.102760002f,0.102930002f,0.103100002f,0.103270002f,0.103409998f,0.103540003f,0.103639998f,0.103799999f,0.103929996f,0.10407f,0.104199998f,0.104340002f,0.104479998f,0.104610004f,0.10475f,0.104889996f,0.105020002f,0.105159998f,0.105300002f,0.10543f,0.105570003f,0.10571f,0.105850004f,0.10599f,0.106119998f,0.106260002f,0.106399998f,0.106540002f,0.106679998f,0.106820002f,0.106959999f,0.107089996f,0.10723f,0.107369997f,0.10751f,0.107649997f,0.107790001f,0.107929997f,0.108070001f,0.108209997f,0.108350001f,0.108499996f,0.10864f,0.108779997f,0.10892f,0.109059997f,0.109200001f,0.109339997f,0.10949f,0.109630004f,0.10977f,0.109909996f,0.11005f,0.110200003f,0.110339999f,0.110480003f,0.110629998f,0.110770002f,0.110909998f,0.111060001f,0.111199997f,0.11135f,0.111489996f,0.11163f,0.111780003f,0.111919999f,0.112070002f,0.112209998f,0.112360001f,0.112499997f,0.11265f,0.112790003f,0.112939999f,0.113090001f,0.113229997f,0.11338f,0.113530003f,0.113669999f,0.113820001f,0.113969997f,0.11411f,0.114260003f,0.114409998f,0.114560001f,0.114699997f,0.11485f};
static const float REF_CES36[400] = {0.0343139991f,0.0346539989f,0.0350579992f,0.0355699994f,0.0362359993f,0.0370750017f,0.0380610004f,0.0391490012f,0.0403020009f,0.041517999f,0.0428339988f,0.0443210006f,0.0460710004f,0.0481689982f,0.0506680012f,0.0535839982f,0.0569249988f,0.0607049987f,0.0649529994f,0.0697169974f,0.0750619993f,0.0790280029f,0.0832839981f,0.0878290012f,0.0926579982f,0.0977630019f,0.103136003f,0.108773001f,0.114675f,0.120846003f,0.127287999f,0.134003997f,0.140999004f,0.148278996f,0.155847996f,0.163707003f,0.171859995f,0.180305004f,0.189034998f,0.198030993f,0.207269996f,0.216728002f,0.226377994f,0.236188993f,0.246131003f,0.256177008f,0.266301006f,0.276477993f,0.286688f,0.296909988f,0.307123005f,0.317310005f,0.327452987f,0.337532997f,0.347521991f,0.357394993f,0.367130011f,0.376702994f,0.386085004f,0.395235002f,0.404130012f,0.412743986f,0.421050012f,0.429028988f,0.436666995f,0.443969011f,0.450933993f,0.457565993f,0.463867009f,0.46983999f,0.475493997f,0.480832994f,0.48586601f,0.490597993f,0.495032996f,0.499170005f,0.503005981f,0.506529987f,0.509733975f,0.512618005f,0.515187979f,0.517463028f,0.519459009f,0.521201015f,0.522710025f,0.524002016f,0.525095999f,0.526006997f,0.526754975f,0.527348995f,0.527810991f,0.528164029f,0.528421998f,0.528594017f,0.528680027f,0.528701007f,0.528670013f,0.528595984f,0.528495014f,0.528391004f,0.528316021f,0.528274f,0.528272986f,0.528315008f,0.528402984f,0.528533995f,0.528696001f,0.528887987f,0.529106021f,0.529343009f,0.529591024f,0.529833972f,0.53006202f,0.530261993f,0.530426025f,0.53055203f,0.530642986f,0.530710995f,0.530767977f,0.530833006f,0.530921996f,0.531045973f,0.531211019f,0.531417012f,0.531659007f,0.53193301f,0.532231987f,0.532546997f,0.532868028f,0.533178985f,0.533468008f,0.53371501f,0.533901989f,0.534016013f,0.534053981f,0.534018993f,0.53391099f,0.533737004f,0.533497989f,0.533195019f,0.53283f,0.532405019f,0.531930029f,0.531421006f,0.530898988f,0.530386984f,0.529906988f,0.529479027f,0.529112995f,0.528818011f,0.528599977f,0.528456986f,0.528382003f,0.528367996f,0.528406024f,0.52848202f,0.52858001f,0.52868402f,0.528779984f,0.528855026f,0.528896987f,0.528894007f,0.528840005f,0.528734028f,0.528576016f,0.528370023f,0.528123021f,0.527848005f,0.527558982f,0.527270019f,0.526997983f,0.526762009f,0.526578009f,0.526462018f,0.526430011f,0.52649498f,0.526665986f,0.526947975f,0.527339995f,0.527839005f,0.528432012f,0.529100001f,0.529821992f,0.530578017f,0.531346977f,0.532103002f,0.532827973f,0.533505976f,0.53412497f,0.534677029f,0.535156012f,0.535565019f,0.535911977f,0.536210001f,0.536468983f,0.536704004f,0.536930978f,0.537163973f,0.537410021f,0.537679017f,0.537977993f,0.538312972f,0.538688004f,0.539104998f,0.53956598f,0.540071011f,0.540615976f,0.541198015f,0.541809976f,0.542446017f,0.543098986f,0.543757975f,0.544412971f,0.545054018f,0.545668006f,0.546239972f,0.546756983f,0.547212005f,0.547599018f,0.547917008f,0.548169971f,0.548372984f,0.548539996f,0.548686981f,0.548830986f,0.548986971f,0.549170971f,0.549395025f,0.549664021f,0.549982011f,0.550348997f,0.550759971f,0.551208019f,0.551680028f,0.552166998f,0.552663028f,0.553161025f,0.553659976f,0.554161012f,0.554666996f,0.555177987f,0.555688977f,0.556189001f,0.556662977f,0.557093978f,0.557461977f,0.557751f,0.557953f,0.558062017f,0.558079004f,0.558008015f,0.557862997f,0.557667017f,0.557440996f,0.557215989f,0.557021022f,0.556886017f,0.556831002f,0.556861997f,0.556979001f,0.557174027f,0.557433009f,0.557732999f,0.558053017f,0.558377028f,0.558687985f,0.558969975f,0.559212029f,0.559409022f,0.559560001f,0.559665978f,0.559731007f,0.559768021f,0.559794009f,0.559831977f,0.559894025f,0.559994996f,0.560141981f,0.56033802f,0.560570002f,0.560820997f,0.561080992f,0.561339021f,0.561577976f,0.561778009f,0.561923981f,0.562005997f,0.56201601f,0.561954021f,0.561827004f,0.561650991f,0.561448991f,0.561230004f,0.560997009f,0.560751021f,0.56041199f,0.560168028f,0.559971988f,0.559765995f,0.559481025f,0.559119999f,0.558430016f,0.55764401f,0.556779027f,0.555848002f,0.554862022f,0.553831995f,0.552765012f,0.551671028f,0.550553024f,0.549409986f,0.54824698f,0.54706198f,0.545850992f,0.54460001f,0.543295979f,0.54192698f,0.540481985f,0.53895098f,0.537330985f,0.535625994f,0.533850014f,0.532009006f,0.530121028f,0.528208017f,0.526304007f,0.524442971f,0.522651017f,0.520951986f,0.519353986f,0.517858028f,0.516444981f,0.515089989f,0.513772011f,0.512467027f,0.511156023f,0.509893f,0.508466005f,0.506896973f,0.50523001f,0.503530979f,0.501796007f,0.500284016f,0.498773009f,0.497260988f,0.49575001f,0.494239002f,0.492727995f,0.491216987f,0.48970601f,0.488195002f,0.486683995f,0.485174f,0.483664989f,0.482154995f,0.480646014f,0.479137003f,0.477627993f,0.476119995f,0.474611998f,0.473105013f,0.471599013f,0.470091999f,0.468587011f,0.46708101f,0.465577006f,0.464073002f,0.462570012f,0.461066991f,0.459565014f,0.45806399f,0.456564009f,0.455063999f,0.453565001f,0.452066988f,0.450569987f,0.449074f,0.447578996f,0.446083993f,0.444590986f,0.443098992f,0.441599995f,0.440102994f,0.438607007f,0.437112004f,0.435618013f,0.43412599f,0.432633996f,0.431143999f,0.429655999f,0.428169012f,0.426683009f,0.425199002f,0.423716992f,0.422237009f,0.420758009f,0.419281006f,0.417806f,0.416332006f,0.41486001f};
static const float REF_CES37[400] = {0.050280001f,0.0502699986f,0.0502609983f,0.0502509996f,0.0502419993f,0.0502320006f,0.0502230003f,0.0502130017f,0.0502040014f,0.0501950011f,0.0501849987f,0.0501759984f,0.0501659997f,0.0501569994f,0.0501470007f,0.0501380004f,0.0501280017f,0.0501190014f,0.0501100011f,0.0500999987f,0.0500000007f,0.0500410013f,0.0500679985f,0.0500850007f,0.0500909984f,0.0500890017f,0.0500800014f,0.0500649996f,0.0500460006f,0.0500239991f,0.0500000007f,0.0499759987f,0.0499540009f,0.0499349982f,0.0499200001f,0.0499109998f,0.0499089994f,0.0499150008f,0.0499319993f,0.0499590002f,0.0500000007f,0.0500539988f,0.0501220003f,0.0502020009f,0.0502920002f,0.0503919981f,0.0505010001f,0.0506169982f,0.0507399999f,0.0508680008f,0.050999999f,0.0511359982f,0.0512779988f,0.0514289998f,0.0515919998f,0.0517700016f,0.0519669987f,0.0521860011f,0.0524279997f,0.0526989996f,0.0529999994f,0.0533329993f,0.0536959991f,0.0540810004f,0.0544850007f,0.0549010001f,0.0553259999f,0.0557530001f,0.0561779998f,0.0565959997f,0.057f,0.0573870018f,0.0577559993f,0.0581060015f,0.058437001f,0.0587490015f,0.0590410009f,0.0593120009f,0.0595620014f,0.0597920008f,0.0599999987f,0.0601859987f,0.0603520013f,0.0604959987f,0.0606210008f,0.0607279986f,0.0608160011f,0.0608859994f,0.0609400012f,0.0609779991f,0.0610000007f,0.061009001f,0.0610140003f,0.0610219985f,0.0610449985f,0.0610909984f,0.0611689985f,0.0612899996f,0.061462f,0.0616960004f,0.061999999f,0.0623809993f,0.0628340021f,0.0633490011f,0.0639190003f,0.0645349994f,0.0651879981f,0.0658690035f,0.0665709972f,0.0672840029f,0.0680000037f,0.0687090009f,0.0693949983f,0.0700419992f,0.0706309974f,0.0711449981f,0.0715679973f,0.0718820021f,0.0720710009f,0.0721160024f,0.0719999969f,0.0717229992f,0.0713450015f,0.0709439963f,0.0705979988f,0.0703840032f,0.0703789964f,0.0706610009f,0.0713070035f,0.0723939985f,0.074000001f,0.0761820003f,0.0789130032f,0.0821480006f,0.0858400017f,0.0899429992f,0.0944110006f,0.0991960019f,0.104249999f,0.109540001f,0.115000002f,0.120590001f,0.126259997f,0.131940007f,0.137569994f,0.143089995f,0.148450002f,0.153579995f,0.158419997f,0.162909999f,0.166999996f,0.170640007f,0.173869997f,0.176740006f,0.179330006f,0.181679994f,0.183860004f,0.18592f,0.187930003f,0.189930007f,0.192000002f,0.194169998f,0.196400002f,0.198640004f,0.200829998f,0.202930003f,0.20487f,0.206599995f,0.208069995f,0.209220007f,0.209999993f,0.210360005f,0.210329995f,0.209920004f,0.209169999f,0.208110005f,0.206750005f,0.205129996f,0.203290001f,0.201230004f,0.199000001f,0.196620002f,0.194120005f,0.191520005f,0.188850001f,0.186149999f,0.18344f,0.18073f,0.178080007f,0.175490007f,0.172999993f,0.170629993f,0.168390006f,0.166270003f,0.164279997f,0.162420005f,0.160679996f,0.15907f,0.157580003f,0.156230003f,0.155000001f,0.153899997f,0.152950004f,0.152150005f,0.15151f,0.15106f,0.150810003f,0.150759995f,0.150930002f,0.151339993f,0.151999995f,0.152909994f,0.153999999f,0.155220002f,0.156479999f,0.157710001f,0.158849999f,0.159820005f,0.160549998f,0.160970002f,0.160999998f,0.160600007f,0.159799993f,0.158659995f,0.157240003f,0.155589998f,0.153779998f,0.15185f,0.149880007f,0.147909999f,0.145999998f,0.144199997f,0.142509997f,0.14091f,0.139379993f,0.137920007f,0.136500001f,0.135110006f,0.133750007f,0.132379994f,0.130999997f,0.129600003f,0.128169999f,0.126739994f,0.125300005f,0.123860002f,0.122440003f,0.121030003f,0.119649999f,0.118299998f,0.116999999f,0.115740001f,0.114519998f,0.113339998f,0.112170003f,0.11101f,0.109849997f,0.108680002f,0.107490003f,0.106260002f,0.104999997f,0.103689998f,0.102360003f,0.10103f,0.0997269973f,0.0984800011f,0.0973149985f,0.0962579995f,0.0953349993f,0.094573997f,0.0939999968f,0.0936390013f,0.0935100019f,0.0936330035f,0.0940259993f,0.0947080031f,0.0956970006f,0.0970119983f,0.0986720026f,0.100699998f,0.103100002f,0.105899997f,0.10909f,0.112640001f,0.116549999f,0.120800003f,0.125369996f,0.130250007f,0.135429993f,0.140880004f,0.146599993f,0.152569994f,0.158769995f,0.165209994f,0.171880007f,0.178770006f,0.185870007f,0.193179995f,0.2007f,0.208399996f,0.216299996f,0.224380001f,0.23263f,0.241040006f,0.249610007f,0.258329988f,0.267179996f,0.276160002f,0.285270005f,0.294479996f,0.303799987f,0.313210011f,0.322710007f,0.33228001f,0.341919988f,0.351619989f,0.361369997f,0.371160001f,0.380989999f,0.390839994f,0.400700003f,0.412319988f,0.422850013f,0.433459997f,0.44411999f,0.454840004f,0.465600014f,0.476390004f,0.487210006f,0.498030007f,0.508859992f,0.519680023f,0.530480027f,0.54124999f,0.551989973f,0.562669992f,0.573300004f,0.58385998f,0.594340026f,0.604740024f,0.615050018f,0.625249982f,0.635339975f,0.645319998f,0.655170023f,0.664889991f,0.674470007f,0.683899999f,0.693189979f,0.702329993f,0.711300015f,0.720109999f,0.728760004f,0.737240016f,0.745540023f,0.753669977f,0.761619985f,0.769400001f,0.776989996f,0.78441f,0.791639984f,0.798699975f,0.805570006f,0.812259972f,0.818780005f,0.825119972f,0.831279993f,0.837270021f,0.843079984f,0.848730028f,0.854210019f,0.859520018f,0.864669979f,0.86966002f,0.874490023f,0.879170001f,0.88369f,0.888069987f,0.89230001f,0.896399975f,0.900349975f,0.904169977f,0.907859981f,0.911419988f,0.914849997f,0.918169975f,0.921360016f,0.924440026f,0.927410007f,0.93028003f,0.933030009f,0.935689986f,0.938250005f,0.940710008f,0.943080008f,0.945360005f,0.947560012f,0.949670017f,0.951699972f,0.953649998f};
static const float REF_CES38[400] = {0.113229997f,0.112997003f,0.113218002f,0.113931f,0.114693999f,0.115250997f,0.115558997f,0.115345001f,0.114266001f,0.112351f,0.109791003f,0.106767997f,0.103523999f,0.100469001f,0.0977580026f,0.0954080001f,0.0933120027f,0.0914020017f,0.0896530002f,0.0881099999f,0.0868860036f,0.0857700035f,0.0847460032f,0.0838119984f,0.0829719976f,0.0822409987f,0.0816560015f,0.0812529996f,0.0810699984f,0.0811230019f,0.0814210027f,0.0819559991f,0.0827279985f,0.0837529972f,0.085097f,0.0868140012f,0.0889360011f,0.0914649963f,0.0944100022f,0.0977569968f,0.101512f,0.105705f,0.110375002f,0.115547001f,0.121234998f,0.127414003f,0.134030998f,0.141047001f,0.148442999f,0.156197995f,0.164312005f,0.172801003f,0.181655005f,0.190843999f,0.200349003f,0.210142002f,0.220191002f,0.230489999f,0.241021007f,0.251751989f,0.262647986f,0.273683012f,0.28482601f,0.296077013f,0.307435989f,0.318892002f,0.330417991f,0.341962993f,0.353471011f,0.364903003f,0.376224995f,0.387414992f,0.398481011f,0.409399986f,0.420120001f,0.430597991f,0.440798998f,0.450684011f,0.460254014f,0.469511002f,0.47844401f,0.487060994f,0.495371997f,0.503345013f,0.510981023f,0.518293023f,0.525276005f,0.531938016f,0.538318992f,0.544430017f,0.550291002f,0.555929005f,0.56133002f,0.566471994f,0.571362972f,0.575990021f,0.580352008f,0.584484994f,0.588400006f,0.592100024f,0.595616996f,0.598954022f,0.602102995f,0.605078995f,0.607879996f,0.610494018f,0.612926006f,0.615167975f,0.617214024f,0.619084001f,0.620773017f,0.622268975f,0.623601973f,0.624807f,0.625918984f,0.626982987f,0.628050029f,0.629135013f,0.630268991f,0.631457984f,0.63270402f,0.634028971f,0.635462999f,0.636973977f,0.638535023f,0.640112996f,0.641669989f,0.643158972f,0.644581974f,0.645925999f,0.647190988f,0.648359001f,0.649407983f,0.650310993f,0.651072979f,0.65170902f,0.652248979f,0.652710974f,0.653110027f,0.653448999f,0.653734028f,0.653949976f,0.654111028f,0.654241979f,0.654358029f,0.654470026f,0.654599011f,0.654744983f,0.654914975f,0.655126989f,0.655376017f,0.655664027f,0.656026006f,0.656449974f,0.656907022f,0.657392025f,0.657891989f,0.658369005f,0.658809006f,0.659202993f,0.659541011f,0.659830987f,0.660072029f,0.660223007f,0.660286009f,0.660268009f,0.660162985f,0.659977019f,0.659757972f,0.659509003f,0.659233987f,0.658940971f,0.658629f,0.658300996f,0.658008993f,0.657788992f,0.657653987f,0.657615006f,0.657675028f,0.657804012f,0.657988012f,0.658222973f,0.658492982f,0.658780992f,0.659089983f,0.659394979f,0.659677029f,0.659928024f,0.660157979f,0.660345972f,0.660493016f,0.660605013f,0.660691023f,0.660768986f,0.660857022f,0.660942018f,0.661013007f,0.661074996f,0.661127985f,0.661168993f,0.661224008f,0.661311984f,0.661428988f,0.661566019f,0.661724985f,0.661900997f,0.662100017f,0.662330985f,0.662588f,0.662862003f,0.663147986f,0.663438022f,0.663725019f,0.664014995f,0.664305985f,0.664581001f,0.664826989f,0.66503799f,0.665208995f,0.665338993f,0.665444016f,0.665534019f,0.665603995f,0.665670991f,0.665755987f,0.665853024f,0.665971994f,0.666132987f,0.666329026f,0.666559994f,0.66684401f,0.667176008f,0.667551994f,0.667972982f,0.668402016f,0.668811023f,0.669211984f,0.669601977f,0.669959009f,0.670289993f,0.670597017f,0.670863986f,0.671070993f,0.671221018f,0.671319008f,0.67138201f,0.671407998f,0.671404004f,0.671370983f,0.671303988f,0.671186984f,0.671039999f,0.67088002f,0.670720994f,0.670584023f,0.670486987f,0.670418978f,0.670378029f,0.670359015f,0.670361996f,0.670409024f,0.670511007f,0.670644999f,0.670795977f,0.670949996f,0.671076f,0.671145976f,0.67117399f,0.671168983f,0.671132982f,0.671060979f,0.670952022f,0.670808017f,0.670637012f,0.670440972f,0.670240998f,0.670053005f,0.669883013f,0.669726014f,0.669587016f,0.669443011f,0.669272006f,0.669062972f,0.668843985f,0.668631971f,0.668457985f,0.668345988f,0.668307006f,0.66832602f,0.668392003f,0.66851002f,0.668709993f,0.669008017f,0.669394016f,0.669836998f,0.67028302f,0.670611978f,0.670871019f,0.671100974f,0.671307027f,0.671492994f,0.671745002f,0.671962976f,0.67216301f,0.672366023f,0.672581971f,0.672836006f,0.673150003f,0.673507988f,0.673888028f,0.674283028f,0.674688995f,0.675103009f,0.67552501f,0.675951004f,0.676379979f,0.676810026f,0.677237988f,0.677666008f,0.67810899f,0.678573012f,0.67908299f,0.67967099f,0.680346012f,0.681092978f,0.681900024f,0.682734013f,0.68355602f,0.684358001f,0.68514502f,0.685923994f,0.686703026f,0.687470019f,0.688197017f,0.688875973f,0.689522028f,0.690159976f,0.690887988f,0.69166702f,0.692463994f,0.693278015f,0.69411099f,0.694860995f,0.695609987f,0.696358979f,0.697106004f,0.697852015f,0.698597014f,0.699339986f,0.700083017f,0.700824976f,0.701565981f,0.702305973f,0.703045011f,0.703782976f,0.704518974f,0.705254972f,0.705989003f,0.706722975f,0.707454979f,0.708185971f,0.708916008f,0.709645987f,0.710373998f,0.711100996f,0.71182698f,0.712550998f,0.713275015f,0.71399802f,0.714718997f,0.715439975f,0.716158986f,0.716876984f,0.717594028f,0.718309999f,0.719025016f,0.71973902f,0.720452011f,0.721162975f,0.721873999f,0.722582996f,0.723299026f,0.724012971f,0.724726021f,0.725436985f,0.726146996f,0.72685498f,0.72756201f,0.728268027f,0.728971004f,0.729673982f,0.730374992f,0.731073976f,0.731772006f,0.732468009f,0.733162999f,0.733856976f,0.734548986f,0.735238016f,0.735926986f};
static const float REF_CES39[400] = {0.0456579998f,0.0456730016f,0.0456870012f,0.0457019992f,0.0457159989f,0.0457310006f,0.0457450002f,0.0457599983f,0.045775f,0.0457889996f,0.0458040014f,0.045818001f,0.0458329991f,0.0458480008f,0.0458620004f,0.0458769985f,0.0458920002f,0.0459059998f,0.0459210016f,0.0459350012f,0.0460620001f,0.0460279994f,0.0460020006f,0.045984f,0.0459729992f,0.0459689982f,0.0459729992f,0.045984f,0.0460029989f,0.0460290015f,0.0460620001f,0.0461019985f,0.0461499989f,0.0462040007f,0.0462660007f,0.0463350005f,0.0464110002f,0.0464939997f,0.0465830006f,0.0466799997f,0.0467830002f,0.046893999f,0.0470109992f,0.0471349992f,0.0472670011f,0.0474070013f,0.0475540012f,0.0477100015f,0.0478730015f,0.0480449982f,0.0482259989f,0.0484150015f,0.0486130007f,0.0488170013f,0.0490290001f,0.0492459983f,0.0494679995f,0.0496940017f,0.049922999f,0.050156001f,0.0503900014f,0.0506259985f,0.0508630015f,0.0511040017f,0.0513489991f,0.0516000018f,0.0518569984f,0.0521200001f,0.0523930006f,0.0526739992f,0.0529659986f,0.0532689989f,0.0535789989f,0.0538939983f,0.0542110018f,0.0545260012f,0.0548349991f,0.0551359989f,0.0554249994f,0.0556989983f,0.0559540018f,0.0561890006f,0.0564050004f,0.0566070005f,0.0567979999f,0.056981001f,0.0571609996f,0.0573399998f,0.057523001f,0.0577119999f,0.0579119995f,0.0581279993f,0.0583660007f,0.058637999f,0.058952f,0.0593170002f,0.0597429983f,0.0602389984f,0.0608140007f,0.0614780001f,0.0622400008f,0.0631060004f,0.064067997f,0.0651149973f,0.0662359968f,0.067419f,0.0686540008f,0.0699290037f,0.0712340027f,0.0725559965f,0.0738850012f,0.0752099976f,0.0765220001f,0.0778150037f,0.0790790021f,0.0803069994f,0.081491001f,0.0826240033f,0.0836969987f,0.084702f,0.0856319964f,0.0864809975f,0.0872519985f,0.0879499987f,0.088583f,0.0891550034f,0.0896710008f,0.0901380032f,0.0905620009f,0.0909470022f,0.0912989974f,0.0916230008f,0.0919160023f,0.0921719968f,0.0923859999f,0.0925550014f,0.0926719978f,0.0927340016f,0.092735f,0.0926709995f,0.0925360024f,0.0923279971f,0.0920509994f,0.0917100012f,0.0913110003f,0.0908590034f,0.0903590024f,0.0898180008f,0.0892419964f,0.0886339992f,0.0880019963f,0.0873500034f,0.0866819993f,0.0860000029f,0.0853080004f,0.0846080035f,0.0839029998f,0.0831969976f,0.0824920014f,0.0817909986f,0.0810979977f,0.0804139972f,0.0797389969f,0.079072997f,0.0784149989f,0.0777650028f,0.0771220028f,0.0764850006f,0.0758540034f,0.0752269998f,0.0746060014f,0.0739889964f,0.0733809993f,0.0727849975f,0.072205998f,0.0716499984f,0.0711200014f,0.0706200004f,0.0701560006f,0.0697309971f,0.0693499967f,0.0690170005f,0.0687299967f,0.0684849992f,0.0682789981f,0.0681099966f,0.0679740012f,0.0678680018f,0.0677900016f,0.0677350014f,0.0677020028f,0.0676869974f,0.0676919967f,0.0677179992f,0.0677660033f,0.0678389966f,0.0679389983f,0.0680660009f,0.0682220012f,0.0684090033f,0.0686289966f,0.0688830018f,0.069167003f,0.0694810003f,0.0698200017f,0.0701820031f,0.0705640018f,0.0709630027f,0.0713770017f,0.0718019977f,0.0722360015f,0.0726749972f,0.0731180012f,0.0735620037f,0.0740030035f,0.0744400024f,0.0748689994f,0.0752890036f,0.0756950006f,0.076086998f,0.0764610022f,0.0768150017f,0.0771489963f,0.0774649978f,0.0777629986f,0.0780450031f,0.0783120021f,0.0785640031f,0.078801997f,0.0790280029f,0.0792429969f,0.0794470012f,0.0796409994f,0.0798259974f,0.0800009966f,0.0801680014f,0.0803269967f,0.0804790035f,0.0806230009f,0.0807600021f,0.0808919966f,0.0810170025f,0.0811379999f,0.0812520012f,0.0813620016f,0.0814670026f,0.0815669969f,0.0816619992f,0.0817530006f,0.081840001f,0.0819220021f,0.0820010006f,0.0820790008f,0.0821579993f,0.0822400004f,0.0823289976f,0.0824259967f,0.0825349987f,0.0826570019f,0.0827950016f,0.0829529986f,0.0831310004f,0.0833270028f,0.0835409984f,0.0837699994f,0.0840110034f,0.0842619985f,0.0845199972f,0.0847849995f,0.0850529969f,0.0853229985f,0.0855910033f,0.0858559981f,0.086116001f,0.086368002f,0.0866099969f,0.0868399963f,0.0870549977f,0.0872529969f,0.0874319971f,0.0875900015f,0.0877249986f,0.0878380015f,0.0879309997f,0.0880070031f,0.088068001f,0.0881149992f,0.0881500021f,0.0881759971f,0.0881950036f,0.0882079974f,0.0882180035f,0.0882240012f,0.0882280022f,0.0882290006f,0.0882290006f,0.0882269964f,0.0882230029f,0.0882190019f,0.0882129967f,0.0882079974f,0.088202998f,0.0881970003f,0.0881910026f,0.0881839991f,0.0881749988f,0.0881659985f,0.088154003f,0.0881400034f,0.0881239995f,0.0881050006f,0.088082999f,0.0880569965f,0.0880279988f,0.0879950002f,0.0879570022f,0.0879150033f,0.0878679976f,0.0878150016f,0.0877569988f,0.0876929983f,0.0877270028f,0.0876939967f,0.0876609981f,0.0876289979f,0.0875959992f,0.0875630006f,0.087530002f,0.0874970034f,0.0874639973f,0.0874319971f,0.0873989984f,0.0873659998f,0.0873330012f,0.087301001f,0.0872680023f,0.0872350037f,0.0872030035f,0.0871699974f,0.0871369988f,0.0871049985f,0.0870719999f,0.0870390013f,0.087007001f,0.0869740024f,0.0869409963f,0.0869090036f,0.0868759975f,0.0868439972f,0.0868109986f,0.0867789984f,0.0867459998f,0.0867130011f,0.0866810009f,0.0866480023f,0.086616002f,0.0865830034f,0.0865510032f,0.0865190029f,0.0864859968f,0.0864539966f,0.086420998f,0.0863889977f,0.0863559991f,0.0863239989f,0.0862919986f,0.086259f,0.0862269998f,0.0861949995f,0.0861620009f,0.0861300007f,0.0860980004f,0.0860650018f,0.0860330015f,0.0860010013f,0.0859680027f,0.0859360024f,0.0859040022f,0.0858720019f,0.0858390033f,0.0858070031f,0.0857750028f,0.0857430026f,0.0857110023f,0.0856779963f,0.0856460035f,0.0856140032f,0.085582003f,0.0855500028f,0.0855180025f,0.0854849964f,0.0854530036f,0.0854210034f,0.0853890032f,0.0853570029f,0.0853250027f,0.0852930024f,0.0852610022f,0.0852290019f,0.0851970017f};
static const float REF_CES40[400] = {0.0750039965f,0.0750069991f,0.0750090033f,0.075011f,0.0750140026f,0.0750159994f,0.0750180036f,0.0750200003f,0.0750230029f,0.0750249997f,0.0750269964f,0.075029999f,0.0750320032f,0.075034f,0.0750359967f,0.0750389993f,0.0750410035f,0.0750430003f,0.0750460029f,0.0750479996f,0.0752239972f,0.0751520023f,0.0750909969f,0.0750410035f,0.0750039965f,0.074977003f,0.0749630034f,0.0749590024f,0.0749680027f,0.0749870017f,0.0750180036f,0.0750600025f,0.0751139969f,0.0751790032f,0.0752549991f,0.0753419995f,0.0754410028f,0.0755499974f,0.0756710023f,0.0758029968f,0.0759449974f,0.0760990009f,0.0762640014f,0.0764409974f,0.0766279995f,0.0768280029f,0.0770390034f,0.0772629976f,0.0774979964f,0.0777459964f,0.0780059993f,0.0782790035f,0.0785650015f,0.0788630024f,0.079173997f,0.0794980004f,0.0798339993f,0.0801829994f,0.0805440024f,0.0809179991f,0.0813039988f,0.0817029998f,0.0821169987f,0.0825479999f,0.0829989985f,0.0834719986f,0.083968997f,0.0844929963f,0.0850469992f,0.085630998f,0.0862499997f,0.0869029984f,0.0875800028f,0.0882690027f,0.088959001f,0.0896369964f,0.0902910009f,0.0909100026f,0.0914810002f,0.0919929966f,0.0924329981f,0.0927940011f,0.0930870026f,0.0933260024f,0.0935280025f,0.0937070027f,0.0938799977f,0.0940599963f,0.0942640007f,0.0945070013f,0.094802998f,0.0951709971f,0.0956389979f,0.096235998f,0.0969920009f,0.0979370028f,0.0991009995f,0.100510001f,0.10221f,0.104209997f,0.106550001f,0.109250002f,0.112279996f,0.115610003f,0.119199999f,0.123020001f,0.12703f,0.131200001f,0.135480002f,0.139850006f,0.144270003f,0.148699999f,0.153119996f,0.157519996f,0.161870003f,0.166170001f,0.170369998f,0.174480006f,0.178470001f,0.18231f,0.186000004f,0.189510003f,0.192860007f,0.196050003f,0.199080005f,0.201979995f,0.204740003f,0.207379997f,0.209900007f,0.21232f,0.214650005f,0.216879994f,0.218989998f,0.220960006f,0.222760007f,0.224350005f,0.225710005f,0.226809993f,0.227620006f,0.22811f,0.228249997f,0.228019997f,0.22744f,0.226549998f,0.225370005f,0.223930001f,0.222259998f,0.220400006f,0.218370005f,0.216199994f,0.213929996f,0.211569995f,0.209150001f,0.206670001f,0.204139993f,0.201580003f,0.198990002f,0.196390003f,0.193770006f,0.191170007f,0.188580006f,0.186010003f,0.183459997f,0.180940002f,0.178440005f,0.175960004f,0.173500001f,0.171059996f,0.168630004f,0.166229993f,0.163839996f,0.161479995f,0.159140006f,0.156839997f,0.154609993f,0.152439997f,0.150360003f,0.148369998f,0.146489993f,0.14474f,0.143130004f,0.141670004f,0.140349999f,0.139160007f,0.138099998f,0.137160003f,0.136329994f,0.135609999f,0.134969994f,0.134430006f,0.133959994f,0.133570001f,0.133249998f,0.133019999f,0.132880002f,0.132860005f,0.132939994f,0.133139998f,0.133479998f,0.133959994f,0.134580001f,0.135360003f,0.13628f,0.137329996f,0.138500005f,0.13978f,0.141149998f,0.142609999f,0.144140005f,0.145720005f,0.147359997f,0.149020001f,0.150710002f,0.152410001f,0.15411f,0.155790001f,0.157460004f,0.159079999f,0.160659999f,0.162190005f,0.163640007f,0.165010005f,0.166309997f,0.167539999f,0.168699995f,0.169799998f,0.170839995f,0.171829998f,0.172780007f,0.173690006f,0.174559996f,0.175400004f,0.176210001f,0.176990002f,0.177739993f,0.178460002f,0.179140002f,0.179800004f,0.180419996f,0.181009993f,0.181569993f,0.182089999f,0.182589993f,0.183060005f,0.183500007f,0.183909997f,0.184300005f,0.18468f,0.185029998f,0.185369998f,0.185690001f,0.186000004f,0.186309993f,0.186609998f,0.186930001f,0.187250003f,0.187600002f,0.187969998f,0.188370004f,0.188810006f,0.189300001f,0.189830005f,0.190410003f,0.191039994f,0.191689998f,0.192379996f,0.193100005f,0.193829998f,0.194580004f,0.195339993f,0.196099997f,0.19686f,0.197610006f,0.198349997f,0.199070007f,0.199760005f,0.200420007f,0.20104f,0.201609999f,0.202130005f,0.202590004f,0.202979997f,0.203319997f,0.203590006f,0.203820005f,0.203999996f,0.204129994f,0.204229996f,0.204290003f,0.204329997f,0.204339996f,0.204339996f,0.20431f,0.204270005f,0.204209998f,0.204129994f,0.204040006f,0.203930005f,0.203810006f,0.203669995f,0.20352f,0.203349993f,0.203170002f,0.202979997f,0.202769995f,0.202539995f,0.202299997f,0.202040002f,0.201759994f,0.201460004f,0.20115f,0.20081f,0.200460002f,0.200080007f,0.199680001f,0.199269995f,0.198819995f,0.198359996f,0.197870001f,0.197359994f,0.196820006f,0.196779996f,0.196390003f,0.196009994f,0.19562f,0.195240006f,0.194859996f,0.194470003f,0.194089994f,0.193709999f,0.193330005f,0.192949995f,0.192570001f,0.192190006f,0.191809997f,0.191440001f,0.191060007f,0.190679997f,0.190310001f,0.189930007f,0.189559996f,0.189180002f,0.188810006f,0.188429996f,0.188060001f,0.187690005f,0.187319994f,0.186949998f,0.186580002f,0.186210006f,0.185839996f,0.18547f,0.185100004f,0.184729993f,0.184369996f,0.184f,0.183640003f,0.183270007f,0.182909995f,0.182539999f,0.182180002f,0.181810006f,0.181449994f,0.181089997f,0.18073f,0.180370003f,0.180010006f,0.179649994f,0.179289997f,0.178929999f,0.178570002f,0.178220004f,0.177860007f,0.177499995f,0.177149996f,0.176789999f,0.176440001f,0.176080003f,0.175730005f,0.175380006f,0.175019994f,0.174669996f,0.174319997f,0.173969999f,0.17362f,0.173270002f,0.172920004f,0.172570005f,0.172230005f,0.171880007f,0.171529993f,0.171189994f,0.170839995f,0.170489997f,0.170149997f,0.169809997f,0.169459999f,0.169119999f,0.168779999f,0.168439999f};
static const float REF_CES41[400] = {0.379729986f,0.381199986f,0.382679999f,0.384160012f,0.385630012f,0.387120008f,0.388599992f,0.390080005f,0.391570002f,0.393059999f,0.394549996f,0.396039993f,0.397540003f,0.399040014f,0.40053001f,0.402040005f,0.403539985f,0.405039996f,0.40654999f,0.408060014f,0.409799993f,0.410939991f,0.412369996f,0.414020002f,0.415829986f,0.417750001f,0.419719994f,0.421680003f,0.423559994f,0.425330013f,0.426899999f,0.428250015f,0.429390013f,0.43039f,0.431270003f,0.432090014f,0.432889998f,0.433719993f,0.434610009f,0.435629994f,0.436800003f,0.438169986f,0.439729989f,0.441480011f,0.443390012f,0.445459992f,0.447670013f,0.450010002f,0.452470005f,0.455040008f,0.457700014f,0.46044001f,0.463270009f,0.46619001f,0.469199985f,0.472310007f,0.475520015f,0.478839993f,0.482279986f,0.485830009f,0.489499986f,0.493299991f,0.49722001f,0.50128001f,0.505460024f,0.509769976f,0.514219999f,0.518790007f,0.523490012f,0.528330028f,0.533299983f,0.538399994f,0.543630004f,0.548969984f,0.554419994f,0.559960008f,0.565590024f,0.57130003f,0.577080011f,0.582910001f,0.588800013f,0.594720006f,0.600679994f,0.606639981f,0.612600029f,0.618539989f,0.624450028f,0.630320013f,0.636120021f,0.641860008f,0.647499979f,0.653039992f,0.658469975f,0.66377002f,0.668940008f,0.67395997f,0.678830028f,0.683529973f,0.688040018f,0.692369998f,0.696500003f,0.700420022f,0.704129994f,0.707620025f,0.710910022f,0.713980019f,0.716849983f,0.719500005f,0.721939981f,0.724179983f,0.726199985f,0.728020012f,0.729629993f,0.731050014f,0.73229003f,0.733359993f,0.734260023f,0.735010028f,0.735610008f,0.736069977f,0.736400008f,0.736609995f,0.736710012f,0.736699998f,0.736590028f,0.736379981f,0.736090004f,0.735719979f,0.735279977f,0.73477f,0.734200001f,0.733579993f,0.732900023f,0.732179999f,0.731419981f,0.730610013f,0.729770005f,0.728890002f,0.727989972f,0.72706002f,0.726100028f,0.725120008f,0.724129975f,0.72311002f,0.722069979f,0.721019983f,0.71995002f,0.718859971f,0.717760026f,0.716639996f,0.715499997f,0.714349985f,0.713190019f,0.71201998f,0.710839987f,0.709670007f,0.708500028f,0.707329988f,0.706170022f,0.705030024f,0.70389998f,0.702790022f,0.701699972f,0.700640023f,0.699609995f,0.698599994f,0.697629988f,0.696690023f,0.695789993f,0.694920003f,0.694100022f,0.693319976f,0.692579985f,0.691890001f,0.691240013f,0.690620005f,0.690039992f,0.689499974f,0.68900001f,0.688530028f,0.68809998f,0.687699974f,0.687319994f,0.686969995f,0.686630011f,0.68629998f,0.685980022f,0.685649991f,0.68532002f,0.684970021f,0.684599996f,0.684210002f,0.683790028f,0.683359981f,0.682900012f,0.682430029f,0.681940019f,0.681450009f,0.680939972f,0.680419981f,0.679899991f,0.67938f,0.678849995f,0.678330004f,0.677810013f,0.677290022f,0.676789999f,0.676289976f,0.675809979f,0.67535001f,0.674899995f,0.674470007f,0.674070001f,0.673690021f,0.673330009f,0.672999978f,0.672699988f,0.672429979f,0.672190011f,0.671980023f,0.671800017f,0.671660006f,0.671549976f,0.671459973f,0.671410024f,0.671370029f,0.671350002f,0.671350002f,0.671360016f,0.671379983f,0.671400011f,0.671429992f,0.671459973f,0.671500027f,0.671559989f,0.671639979f,0.671739995f,0.671869993f,0.672039986f,0.672249973f,0.672500014f,0.672800004f,0.673160017f,0.673579991f,0.674070001f,0.67464f,0.675289989f,0.676039994f,0.676880002f,0.677829981f,0.678900003f,0.68009001f,0.681400001f,0.682850003f,0.684430003f,0.686160028f,0.688030005f,0.690050006f,0.69224f,0.694589972f,0.697099984f,0.699790001f,0.702639997f,0.705659986f,0.708840013f,0.712180018f,0.715659976f,0.719290018f,0.723060012f,0.726960003f,0.731000006f,0.735159993f,0.739440024f,0.743820012f,0.748290002f,0.752839983f,0.757459998f,0.762139976f,0.766860008f,0.771619976f,0.77640003f,0.781189978f,0.785979986f,0.790759981f,0.795520008f,0.800249994f,0.804929972f,0.809560001f,0.814119995f,0.818599999f,0.823000014f,0.827300012f,0.831499994f,0.835590005f,0.839569986f,0.843429983f,0.847180009f,0.850809991f,0.854300022f,0.857670009f,0.860899985f,0.863990009f,0.866959989f,0.869799972f,0.872539997f,0.875180006f,0.877719998f,0.880190015f,0.882579982f,0.884920001f,0.887199998f,0.88944f,0.891610026f,0.893700004f,0.89568001f,0.897539973f,0.899240017f,0.900770009f,0.902100027f,0.903219998f,0.904100001f,0.905489981f,0.906650007f,0.907809973f,0.908949971f,0.910080016f,0.911199987f,0.912310004f,0.913399994f,0.914479971f,0.915549994f,0.916610003f,0.917649984f,0.918680012f,0.919700027f,0.920710027f,0.921710014f,0.922689974f,0.923669994f,0.924629986f,0.925580025f,0.92651999f,0.927450001f,0.928369999f,0.929279983f,0.930180013f,0.931060016f,0.931940019f,0.932810009f,0.933659971f,0.934509993f,0.935339987f,0.936169982f,0.936990023f,0.937789977f,0.93858999f,0.939369977f,0.940150023f,0.940919995f,0.941680014f,0.942430019f,0.943170011f,0.943899989f,0.944630027f,0.945339978f,0.946039975f,0.946739972f,0.947430015f,0.948109984f,0.94878f,0.949450016f,0.950100005f,0.950749993f,0.951390028f,0.952019989f,0.952639997f,0.953260005f,0.953869998f,0.954469979f,0.955060005f,0.955649972f,0.956219971f,0.956799984f,0.957360029f,0.957920015f,0.958469987f,0.959010005f,0.959550023f,0.960080028f,0.960600019f,0.961120009f,0.961629987f,0.96213001f,0.962629974f,0.963119984f,0.96359998f,0.964079976f,0.964559972f,0.965020001f,0.96548003f};
static const float REF_CES42[400] = {0.0659789965f,0.0658570006f,0.0657360032f,0.0656149983f,0.0654940009f,0.0653730035f,0.0652519986f,0.0651319996f,0.0650120005f,0.0648920015f,0.0647720024f,0.0646520033f,0.0645330027f,0.064414002f,0.0642950013f,0.0641760007f,0.064057f,0.0639389977f,0.0638210028f,0.0637030005f,0.0637440011f,0.0635650009f,0.0633929968f,0.0632280037f,0.0630709976f,0.0629239976f,0.0627869964f,0.0626609996f,0.0625459999f,0.0624429993f,0.0623539984f,0.0622790009f,0.0622179992f,0.0621719994f,0.0621430017f,0.0621309988f,0.0621370003f,0.0621609986f,0.0622050017f,0.0622689985f,0.0623539984f,0.0624600016f,0.0625870004f,0.0627320036f,0.0628940016f,0.0630720034f,0.0632639974f,0.0634680018f,0.0636840016f,0.0639080033f,0.0641409978f,0.0643810034f,0.0646269992f,0.0648790002f,0.0651369989f,0.0654020011f,0.0656739995f,0.0659509972f,0.0662349984f,0.0665260032f,0.0668219998f,0.0671250001f,0.0674370006f,0.0677599981f,0.0680949986f,0.0684449971f,0.0688119978f,0.0691990033f,0.0696069971f,0.0700379983f,0.0704960003f,0.0709810033f,0.0714989975f,0.072052002f,0.0726450011f,0.0732809976f,0.0739639997f,0.0746989995f,0.0754880011f,0.0763359964f,0.0772479996f,0.0782240033f,0.0792649984f,0.0803690031f,0.0815320015f,0.082754001f,0.0840319991f,0.0853630006f,0.0867459998f,0.0881789997f,0.089658998f,0.0911850035f,0.0927629992f,0.0943979993f,0.0960950032f,0.0978609994f,0.0997020006f,0.101620004f,0.103629999f,0.105729997f,0.107929997f,0.110229999f,0.112669997f,0.115259998f,0.118019998f,0.120990001f,0.124200001f,0.127649993f,0.131390005f,0.135429993f,0.139799997f,0.144529998f,0.149639994f,0.155169994f,0.161149994f,0.167610005f,0.174590006f,0.182099998f,0.190190002f,0.198880002f,0.208210006f,0.218199998f,0.228809997f,0.239999995f,0.251740009f,0.263990015f,0.27669999f,0.289819986f,0.303330004f,0.317180008f,0.331330001f,0.345719993f,0.36026001f,0.37481001f,0.389270008f,0.403519988f,0.417439997f,0.430909991f,0.443809986f,0.456030011f,0.467460006f,0.477979988f,0.487610012f,0.49634999f,0.504220009f,0.511240005f,0.51740998f,0.522769988f,0.527329981f,0.531090021f,0.534080029f,0.536319971f,0.537850022f,0.538709998f,0.538950026f,0.538609982f,0.537750006f,0.53640002f,0.534619987f,0.532440007f,0.529910028f,0.527079999f,0.523959994f,0.52056998f,0.516919971f,0.513040006f,0.508930027f,0.504620016f,0.500109971f,0.495429993f,0.490590006f,0.485610008f,0.480500013f,0.47529f,0.469999999f,0.464659989f,0.45927f,0.453869998f,0.448469996f,0.443100005f,0.437770009f,0.432509989f,0.42730999f,0.422179997f,0.417109996f,0.412110001f,0.407160014f,0.402269989f,0.397430003f,0.392650008f,0.387930006f,0.383249998f,0.378639996f,0.3741f,0.369639993f,0.365269989f,0.361009985f,0.356869996f,0.35284999f,0.348969996f,0.345230013f,0.341650009f,0.33822f,0.334939986f,0.33179f,0.328770012f,0.325879991f,0.323089987f,0.320410013f,0.317829996f,0.315340012f,0.312940001f,0.310609996f,0.30836001f,0.306169987f,0.304040015f,0.301970005f,0.29993999f,0.297960013f,0.296009988f,0.294099987f,0.292199999f,0.290329993f,0.288480014f,0.286639988f,0.284799993f,0.282970011f,0.281150013f,0.279309988f,0.277480006f,0.275629997f,0.273770005f,0.271890014f,0.270020008f,0.268130004f,0.266250014f,0.264369994f,0.262499988f,0.260639995f,0.258789986f,0.256960005f,0.255160004f,0.253390014f,0.251659989f,0.249990001f,0.248390004f,0.246859998f,0.245429993f,0.244090006f,0.242870003f,0.241769999f,0.240810007f,0.239979997f,0.239299998f,0.238769993f,0.238399997f,0.238189995f,0.238150001f,0.238279998f,0.238590002f,0.239089996f,0.239779994f,0.240649998f,0.241699994f,0.242939994f,0.24436f,0.245949998f,0.247710004f,0.249640003f,0.251729995f,0.253980011f,0.256390005f,0.258940011f,0.26157999f,0.264310002f,0.267089993f,0.269899994f,0.272709996f,0.2755f,0.278230011f,0.280889988f,0.283450007f,0.28591001f,0.288260013f,0.290509999f,0.292670012f,0.294719994f,0.29666999f,0.298530012f,0.300280005f,0.301939994f,0.30351001f,0.305009991f,0.306470007f,0.307920009f,0.309390008f,0.310900003f,0.3125f,0.314200014f,0.316029996f,0.31803f,0.32021001f,0.322600007f,0.325190008f,0.328000009f,0.331030011f,0.334289998f,0.337790012f,0.341540009f,0.345539987f,0.349799991f,0.354330003f,0.359140009f,0.364230007f,0.369610012f,0.375290006f,0.381289989f,0.387589991f,0.394219995f,0.401179999f,0.408479989f,0.409770012f,0.415280014f,0.4208f,0.426349998f,0.431910008f,0.437489986f,0.443089992f,0.448700011f,0.454320014f,0.459960014f,0.465600014f,0.471260011f,0.476920009f,0.48258999f,0.488260001f,0.493939996f,0.499610007f,0.505289972f,0.510969996f,0.516640007f,0.522310019f,0.527970016f,0.533630013f,0.539269984f,0.544910014f,0.55053997f,0.556150019f,0.561749995f,0.567330003f,0.572899997f,0.578450024f,0.58397001f,0.589479983f,0.594959974f,0.600419998f,0.605859995f,0.61127001f,0.616649985f,0.622009993f,0.627330005f,0.632619977f,0.637889981f,0.643119991f,0.648310006f,0.65346998f,0.658599973f,0.663680017f,0.668730021f,0.673740029f,0.678719997f,0.683650017f,0.688539982f,0.693390012f,0.698199987f,0.702960014f,0.707679987f,0.712360024f,0.716989994f,0.721570015f,0.726109982f,0.730599999f,0.735050023f,0.739449978f,0.743799984f,0.748099983f,0.752359986f,0.756569982f,0.760730028f,0.764829993f,0.768890023f,0.772909999f,0.776870012f,0.780780017f,0.784640014f,0.788450003f,0.792219996f,0.795930028f,0.799589992f,0.80321002f};
static const float REF_CES43[400] = {0.0886230022f,0.0874229968f,0.0862379968f,0.0850669965f,0.0839110017f,0.082768999f,0.0816410035f,0.0805279985f,0.0794280022f,0.0783419982f,0.0772690028f,0.0762099996f,0.0751639977f,0.0741320029f,0.0731120035f,0.0721059963f,0.0711119995f,0.0701309964f,0.0691620037f,0.0682059973f,0.0671000034f,0.0664179996f,0.0655639991f,0.0645689964f,0.0634619966f,0.0622749999f,0.0610379986f,0.059781f,0.0585360005f,0.0573320016f,0.0562000014f,0.0551650003f,0.0542280003f,0.0533850007f,0.0526299998f,0.0519590005f,0.0513680018f,0.0508509986f,0.050404001f,0.0500219986f,0.0496999994f,0.0494339988f,0.0492210016f,0.0490549989f,0.0489329994f,0.0488499999f,0.048804f,0.0487900004f,0.048804f,0.0488420017f,0.0489000008f,0.0489749983f,0.0490700006f,0.0491870008f,0.0493299998f,0.0495020002f,0.0497049987f,0.0499430001f,0.0502200015f,0.0505379997f,0.0509000011f,0.0513099991f,0.051775001f,0.0522990003f,0.0528910011f,0.0535550006f,0.054299999f,0.0551300012f,0.0560519993f,0.0570739992f,0.0582000017f,0.0594360009f,0.0607820004f,0.0622319989f,0.063786f,0.0654390007f,0.0671890005f,0.0690329969f,0.0709690005f,0.072991997f,0.0750999972f,0.0772970021f,0.0796110034f,0.0820780024f,0.0847340003f,0.0876130015f,0.0907509997f,0.0941829979f,0.0979449973f,0.102069996f,0.106600001f,0.111550003f,0.116910003f,0.122649997f,0.128739998f,0.13515f,0.141849995f,0.148809999f,0.156010002f,0.163420007f,0.171000004f,0.178739995f,0.186680004f,0.194839999f,0.203280002f,0.212029994f,0.221129999f,0.230629995f,0.240559995f,0.250970006f,0.261900008f,0.273369998f,0.285320014f,0.297679991f,0.310360014f,0.323300004f,0.336409986f,0.349629998f,0.362870008f,0.376049995f,0.389099985f,0.401950002f,0.414539993f,0.42682001f,0.438730001f,0.450239986f,0.461270005f,0.471789986f,0.481730014f,0.491050005f,0.49970001f,0.507629991f,0.514869988f,0.521430016f,0.527339995f,0.532630026f,0.537329972f,0.541459978f,0.545040011f,0.548120022f,0.550700009f,0.552820027f,0.554509997f,0.555779994f,0.556680024f,0.557219982f,0.557430029f,0.557330012f,0.556959987f,0.556339979f,0.555499971f,0.554459989f,0.553229988f,0.551829994f,0.550260007f,0.548539996f,0.54667002f,0.544669986f,0.542559981f,0.540329993f,0.537999988f,0.535579979f,0.533079982f,0.530489981f,0.527819991f,0.525059998f,0.522239983f,0.519330025f,0.516359985f,0.513310015f,0.510200024f,0.507019997f,0.503790021f,0.500500023f,0.497180015f,0.493820012f,0.490429997f,0.487029999f,0.483619988f,0.480210006f,0.476799995f,0.47341001f,0.47003001f,0.466670007f,0.463340014f,0.460020006f,0.456739992f,0.453480005f,0.45025f,0.447059989f,0.443899989f,0.440780014f,0.43768999f,0.43463999f,0.431609988f,0.428609997f,0.425639987f,0.422679991f,0.419739991f,0.416810006f,0.413899988f,0.41099f,0.408069998f,0.405119985f,0.402119994f,0.399049997f,0.395889997f,0.392630011f,0.389239997f,0.385699987f,0.381999999f,0.378129989f,0.374110013f,0.370000005f,0.365819991f,0.361629993f,0.357470006f,0.353370011f,0.349379987f,0.345550001f,0.341899991f,0.338479996f,0.335299999f,0.332349986f,0.329640001f,0.327170014f,0.324930012f,0.322939992f,0.321179986f,0.319669992f,0.318399996f,0.317369998f,0.316549987f,0.315930009f,0.315459996f,0.315120012f,0.314880013f,0.314720005f,0.314610004f,0.314509988f,0.314399987f,0.314260006f,0.31408f,0.313870013f,0.313630015f,0.313360006f,0.313069999f,0.312750012f,0.312420011f,0.312070012f,0.311699986f,0.311320007f,0.310930014f,0.310530007f,0.310110003f,0.309680015f,0.30923f,0.308770001f,0.308299989f,0.307810009f,0.307300001f,0.306769997f,0.306169987f,0.305460006f,0.304580003f,0.303490013f,0.302130014f,0.300469995f,0.298440009f,0.296000004f,0.293099999f,0.289709985f,0.285860002f,0.281599998f,0.276989996f,0.272080004f,0.26692f,0.261559993f,0.256049991f,0.250449985f,0.244800001f,0.239160001f,0.233590007f,0.228129998f,0.222839996f,0.217769995f,0.212980002f,0.208509997f,0.20442f,0.200770006f,0.197600007f,0.194959998f,0.192809999f,0.191119999f,0.189850003f,0.188940004f,0.188360006f,0.188069999f,0.188030005f,0.18818f,0.188500002f,0.188960001f,0.189659998f,0.190709993f,0.192249998f,0.194370002f,0.197209999f,0.200880006f,0.205510005f,0.211209998f,0.218099996f,0.226229995f,0.235359997f,0.245179996f,0.255389988f,0.265670002f,0.275709987f,0.2852f,0.293830007f,0.301310003f,0.307300001f,0.316929996f,0.325300008f,0.333779991f,0.342370003f,0.351069987f,0.359860003f,0.368750006f,0.377730012f,0.386799991f,0.395940006f,0.40516001f,0.414440006f,0.423790008f,0.433189988f,0.442640007f,0.45212999f,0.461650014f,0.471210003f,0.480780005f,0.490370005f,0.499969989f,0.509559989f,0.519150019f,0.528729975f,0.53828001f,0.547800004f,0.557299972f,0.566739976f,0.57615f,0.585489988f,0.594780028f,0.603990018f,0.613139987f,0.622200012f,0.631179988f,0.640070021f,0.648869991f,0.657570004f,0.666159987f,0.67464f,0.683009982f,0.69125998f,0.699389994f,0.707400024f,0.715279996f,0.723039985f,0.730660021f,0.738150001f,0.745500028f,0.752709985f,0.759790003f,0.766719997f,0.773519993f,0.780170023f,0.786689997f,0.793060005f,0.799290001f,0.805379987f,0.811320007f,0.817130029f,0.822790027f,0.828320026f,0.833710015f,0.838970006f,0.844089985f,0.849070013f,0.853929996f,0.858650029f,0.863240004f,0.867709994f,0.872060001f,0.87628001f,0.880379975f,0.884370029f,0.888230026f,0.891990006f,0.895630002f,0.899169981f,0.902589977f};
static const float REF_CES44[400] = {0.0416340008f,0.0417429991f,0.0418529995f,0.0419639982f,0.0420739986f,0.0421850011f,0.0422959998f,0.0424080007f,0.0425200015f,0.0426319987f,0.0427439995f,0.0428569987f,0.0429689996f,0.0430830009f,0.0431960002f,0.0433100015f,0.0434239991f,0.0435380004f,0.0436530001f,0.0437670015f,0.0439000018f,0.0439880006f,0.0440969989f,0.0442229994f,0.0443620011f,0.0445090011f,0.0446580015f,0.0448069982f,0.0449500009f,0.0450819992f,0.0452000014f,0.045299001f,0.0453809984f,0.0454489999f,0.0455030017f,0.0455479994f,0.045584999f,0.0456160009f,0.0456440002f,0.0456710011f,0.0456999987f,0.045731999f,0.0457670018f,0.0458049998f,0.0458449982f,0.0458870009f,0.0459299982f,0.0459729992f,0.0460160002f,0.0460590012f,0.0461000018f,0.0461400002f,0.0461779982f,0.0462159999f,0.0462529995f,0.0462910011f,0.0463300012f,0.0463690013f,0.0464100018f,0.0464540012f,0.0465000011f,0.0465489998f,0.0465999991f,0.0466529988f,0.0467070006f,0.0467609987f,0.0468139984f,0.0468650013f,0.0469130017f,0.0469590016f,0.0469999984f,0.0470370017f,0.0470689982f,0.0470970012f,0.0471200012f,0.0471410006f,0.0471579991f,0.0471719988f,0.0471840017f,0.0471929982f,0.0472000018f,0.0472059995f,0.0472109988f,0.0472179987f,0.0472260006f,0.0472390018f,0.0472560003f,0.0472790003f,0.0473099984f,0.0473500006f,0.0474000014f,0.0474609993f,0.0475319996f,0.0476120003f,0.0476990007f,0.0477919988f,0.04789f,0.0479910001f,0.0480940007f,0.0481970012f,0.0483000018f,0.0484010018f,0.0485000014f,0.0485979989f,0.0486950018f,0.0487929992f,0.0488910004f,0.04899f,0.0490910001f,0.0491940007f,0.0493000001f,0.0494089983f,0.0495209992f,0.0496339984f,0.0497479998f,0.0498620011f,0.0499750003f,0.0500859991f,0.050193999f,0.050299f,0.0504000001f,0.0504960008f,0.0505860001f,0.0506700017f,0.0507499985f,0.0508229993f,0.0508910008f,0.0509519987f,0.051008001f,0.0510569997f,0.0511000007f,0.0511370003f,0.0511670001f,0.0511909984f,0.051208999f,0.0512209982f,0.0512280017f,0.0512290001f,0.0512240008f,0.0512150005f,0.0511999987f,0.0511800013f,0.0511559993f,0.0511289984f,0.0510989986f,0.0510669984f,0.0510330014f,0.0509990007f,0.0509649999f,0.0509320013f,0.0509000011f,0.0508700013f,0.0508430004f,0.0508159995f,0.0507889986f,0.0507620014f,0.0507339984f,0.0507050008f,0.0506730005f,0.0506380014f,0.0505999997f,0.0505580008f,0.0505120009f,0.0504629984f,0.0504119992f,0.0503600016f,0.0503069982f,0.0502530001f,0.0502009988f,0.0501490012f,0.0500999987f,0.0500530005f,0.0500079989f,0.0499630012f,0.0499190018f,0.0498729981f,0.0498259999f,0.049775999f,0.049722001f,0.0496639982f,0.0496000014f,0.0495299995f,0.0494560003f,0.0493780002f,0.0492990017f,0.0492210016f,0.0491449982f,0.0490740016f,0.0490080006f,0.0489489995f,0.0489000008f,0.0488610007f,0.0488330014f,0.0488119982f,0.0487990007f,0.0487920009f,0.0487889983f,0.0487900004f,0.0487929992f,0.0487970002f,0.0487999991f,0.0488019995f,0.0488019995f,0.0488019995f,0.0488010012f,0.0487990007f,0.0487979986f,0.0487970002f,0.0487970002f,0.0487979986f,0.0487999991f,0.048804f,0.0488089994f,0.0488139987f,0.0488190018f,0.048822999f,0.0488249995f,0.0488249995f,0.0488209985f,0.0488130003f,0.0487999991f,0.0487819985f,0.0487600006f,0.0487350002f,0.0487090014f,0.0486829989f,0.0486579984f,0.0486360006f,0.048618f,0.0486049987f,0.0485999994f,0.0486029983f,0.0486130007f,0.0486299992f,0.0486540012f,0.048684001f,0.0487190001f,0.0487589985f,0.0488030016f,0.0488499999f,0.0489000008f,0.0489519984f,0.0490069985f,0.0490630008f,0.0491209999f,0.0491809994f,0.049242001f,0.0493049994f,0.0493689999f,0.0494339988f,0.0494999997f,0.0495669991f,0.0496350005f,0.0497029983f,0.0497730002f,0.049842f,0.0499130003f,0.0499840006f,0.0500559993f,0.0501280017f,0.0502000004f,0.0502730012f,0.0503459983f,0.0504209995f,0.0504969992f,0.0505740009f,0.0506540015f,0.0507359989f,0.0508209988f,0.0509090014f,0.050999999f,0.0510950014f,0.0511929989f,0.0512930006f,0.0513940006f,0.0514970012f,0.0516000018f,0.0517029986f,0.0518039986f,0.0519029982f,0.0520000011f,0.0520940013f,0.0521829985f,0.0522690006f,0.0523490012f,0.0524239987f,0.0524940006f,0.0525560006f,0.0526119992f,0.0526599996f,0.0527000017f,0.0527319983f,0.0527549982f,0.05277f,0.0527790003f,0.0527799986f,0.0527749993f,0.0527639985f,0.0527479984f,0.0527260005f,0.0527000017f,0.0526699983f,0.0526360013f,0.0525979996f,0.0525589995f,0.0525170006f,0.0524739996f,0.0524309985f,0.0523869991f,0.0523429997f,0.0522999987f,0.0522589982f,0.0522189997f,0.0521810018f,0.0521459989f,0.0521130003f,0.0520839989f,0.0520570017f,0.0520340018f,0.0520149991f,0.0520000011f,0.0519750006f,0.0519540012f,0.0519330017f,0.0519119985f,0.0518909991f,0.0518699996f,0.0518490002f,0.0518280007f,0.0518070012f,0.0517870001f,0.0517660007f,0.0517450012f,0.0517240018f,0.0517029986f,0.0516819991f,0.0516609997f,0.0516400002f,0.0516199991f,0.0515989996f,0.0515780002f,0.0515570007f,0.0515360013f,0.0515160002f,0.0514950007f,0.0514740013f,0.0514530018f,0.0514319986f,0.0514120013f,0.0513910018f,0.0513699986f,0.0513489991f,0.0513290018f,0.0513079986f,0.0512869991f,0.0512659997f,0.0512459986f,0.0512249991f,0.0512039997f,0.0511839986f,0.0511629991f,0.0511419997f,0.0511219986f,0.0511009991f,0.0510799997f,0.0510599986f,0.0510389991f,0.0510190018f,0.0509979986f,0.0509769991f,0.0509570017f,0.0509359986f,0.0509160012f,0.0508950017f,0.0508750007f,0.0508540012f,0.0508330017f,0.0508130006f,0.0507920012f,0.0507720001f,0.0507510006f,0.0507309996f,0.0507100001f,0.050689999f,0.0506689996f,0.0506489985f,0.050627999f,0.0506080016f,0.0505880006f,0.0505670011f,0.050547f,0.0505260006f,0.0505059995f,0.050485f,0.0504649989f,0.0504450016f,0.0504239984f,0.050404001f,0.0503830016f,0.0503630005f};
static const float REF_CES45[400] = {0.055399999f,0.0546000004f,0.0549999997f,0.0551859997f,0.0551999994f,0.0551859997f,0.055257f,0.0553140007f,0.0556429997f,0.0558709987f,0.0560860001f,0.0562999994f,0.0565860011f,0.0570430011f,0.0572430007f,0.0572290011f,0.0574860014f,0.0577000007f,0.057643f,0.0576569997f,0.057599999f,0.0575570017f,0.057599999f,0.057500001f,0.057500001f,0.0577289984f,0.0578429997f,0.057771001f,0.0579859987f,0.0581710003f,0.058414001f,0.0585860014f,0.0587860011f,0.0588140003f,0.0589139983f,0.0590000004f,0.0593999997f,0.0597710013f,0.0601000004f,0.0603f,0.060757f,0.061257001f,0.061542999f,0.0616139993f,0.061714001f,0.061813999f,0.062185999f,0.0626000017f,0.0627999976f,0.0631859973f,0.063643001f,0.063914001f,0.064199999f,0.0645290017f,0.0648569986f,0.0653569996f,0.0658140033f,0.0662140027f,0.0669139996f,0.067685999f,0.0684140027f,0.0689999983f,0.0694999993f,0.0699290037f,0.070371002f,0.0706290007f,0.0710859969f,0.0714289993f,0.0719999969f,0.0725710019f,0.0733290017f,0.0742999986f,0.0754000023f,0.0761570036f,0.0772569999f,0.0783139989f,0.0794140026f,0.0805860013f,0.0819569975f,0.0831430033f,0.0847000033f,0.0861859992f,0.0877859965f,0.0895429999f,0.0914570019f,0.0931140035f,0.0950710028f,0.0970290005f,0.0990429968f,0.10103f,0.103129998f,0.105109997f,0.107409999f,0.109889999f,0.112530001f,0.115230002f,0.11823f,0.121059999f,0.124030001f,0.127269998f,0.13064f,0.133809999f,0.137600005f,0.141240001f,0.145270005f,0.149609998f,0.154060006f,0.158329993f,0.163340002f,0.168229997f,0.173590004f,0.179030001f,0.184699997f,0.190410003f,0.1972f,0.203690007f,0.210590005f,0.217629999f,0.22507f,0.232260004f,0.23996f,0.246900007f,0.254090011f,0.260839999f,0.26778999f,0.27414f,0.280800015f,0.286870003f,0.293000013f,0.29866001f,0.304430008f,0.309260011f,0.314009994f,0.318199992f,0.322059989f,0.325370014f,0.328489989f,0.330900013f,0.333590001f,0.335909992f,0.337559998f,0.338990003f,0.340490013f,0.341369987f,0.342070013f,0.342530012f,0.342739999f,0.343059987f,0.343039989f,0.342700005f,0.342390001f,0.342090011f,0.341230005f,0.340209991f,0.339040011f,0.337969989f,0.336629987f,0.335330009f,0.333590001f,0.332010001f,0.330440015f,0.328909993f,0.326909989f,0.325289994f,0.323240012f,0.321469992f,0.319940001f,0.318459988f,0.316269994f,0.314500004f,0.312290013f,0.309899986f,0.30746001f,0.305000007f,0.301889986f,0.299140006f,0.295789987f,0.292490005f,0.289700001f,0.287400007f,0.284790009f,0.283069998f,0.281410009f,0.279760003f,0.277810007f,0.276389986f,0.274309993f,0.271860003f,0.269010007f,0.266140014f,0.263069987f,0.26056999f,0.257589996f,0.254260004f,0.251289994f,0.248610005f,0.245660007f,0.243090004f,0.240189999f,0.237159997f,0.234259993f,0.231209993f,0.227860004f,0.225040004f,0.222189993f,0.21943f,0.216690004f,0.213960007f,0.211170003f,0.208629996f,0.205760002f,0.202739999f,0.199609995f,0.196730003f,0.193800002f,0.191139996f,0.18863f,0.186199993f,0.183970004f,0.182089999f,0.179900005f,0.177959993f,0.176170006f,0.174459994f,0.172869995f,0.17159f,0.170070007f,0.169060007f,0.168160006f,0.167030007f,0.165710002f,0.164739996f,0.163670003f,0.162599996f,0.161489993f,0.160469994f,0.159630001f,0.15907f,0.158429995f,0.157790005f,0.157389998f,0.156939998f,0.156269997f,0.155599996f,0.155029997f,0.154540002f,0.154310003f,0.154100001f,0.153659999f,0.153610006f,0.153640002f,0.153410003f,0.153200001f,0.152810007f,0.152260005f,0.152040005f,0.151700005f,0.15117f,0.150729999f,0.150460005f,0.150240004f,0.150299996f,0.150289997f,0.150230005f,0.150330007f,0.150389999f,0.150389999f,0.150470003f,0.150440007f,0.150389999f,0.150370002f,0.150330007f,0.150209993f,0.150099993f,0.150240004f,0.150409997f,0.150590003f,0.150900006f,0.151529998f,0.15196f,0.152339995f,0.152490005f,0.152799994f,0.153200001f,0.153589994f,0.153669998f,0.154730007f,0.15591f,0.157100007f,0.158130005f,0.159240007f,0.160410002f,0.161730006f,0.162530005f,0.163230002f,0.163939998f,0.164700001f,0.165360004f,0.166099995f,0.166840002f,0.167370006f,0.167860001f,0.168469995f,0.168960005f,0.169029996f,0.169139996f,0.169599995f,0.170599997f,0.171470001f,0.172299996f,0.173299998f,0.174659997f,0.175840005f,0.176660001f,0.177039996f,0.177729994f,0.178399995f,0.178939998f,0.179499999f,0.17983f,0.179869995f,0.180130005f,0.180199996f,0.17994f,0.180000007f,0.180199996f,0.180260003f,0.180539995f,0.180500001f,0.180299997f,0.180000007f,0.179729998f,0.179159999f,0.17859f,0.178059995f,0.177729994f,0.177369997f,0.177100003f,0.176499993f,0.175960004f,0.175860003f,0.175699994f,0.175459996f,0.17554f,0.17599f,0.176440001f,0.177059993f,0.17746f,0.177809998f,0.178169996f,0.178470001f,0.178609997f,0.17904f,0.179690003f,0.180370003f,0.181160003f,0.182229996f,0.183390006f,0.184770003f,0.186159998f,0.187470004f,0.188759997f,0.190410003f,0.192029998f,0.193639994f,0.195260003f,0.196869999f,0.198469996f,0.200299993f,0.201930001f,0.203189999f,0.204490006f,0.205740005f,0.206890002f,0.208140001f,0.209299996f,0.210270002f,0.211339995f,0.212339997f,0.213129997f,0.214070007f,0.214969993f,0.215810001f,0.216629997f,0.217669994f,0.21864f,0.219730005f,0.220489994f,0.220459998f,0.220200002f,0.219970003f,0.219500005f,0.218789995f,0.21807f,0.217659995f,0.217840001f,0.218109995f,0.218400002f,0.218339995f,0.218669996f};
static const float REF_CES46[400] = {0.0998219997f,0.100419998f,0.10103f,0.101640001f,0.102250002f,0.102870002f,0.103490002f,0.104110003f,0.104730003f,0.105360001f,0.10599f,0.106629997f,0.107270002f,0.10791f,0.108560003f,0.109200001f,0.109860003f,0.110509999f,0.111170001f,0.111830004f,0.112599999f,0.113109998f,0.113750003f,0.114480004f,0.115290001f,0.116149999f,0.117030002f,0.11789f,0.118730001f,0.119510002f,0.120200001f,0.120789997f,0.12128f,0.121679999f,0.122019999f,0.122309998f,0.122560002f,0.122790001f,0.123010002f,0.12325f,0.123499997f,0.123790003f,0.124119997f,0.124480002f,0.124880001f,0.125320002f,0.12579f,0.126300007f,0.126829997f,0.127399996f,0.128000006f,0.128629997f,0.12929f,0.129989997f,0.130740002f,0.131520003f,0.132349998f,0.133230001f,0.134159997f,0.13515f,0.136199996f,0.137309998f,0.138490006f,0.139740005f,0.141059995f,0.142450005f,0.143930003f,0.145490006f,0.147129998f,0.148870006f,0.150700003f,0.152630001f,0.154660001f,0.156790003f,0.159040004f,0.161410004f,0.163900003f,0.16652f,0.169269994f,0.17216f,0.1752f,0.178379998f,0.181720003f,0.185200006f,0.188830003f,0.192609996f,0.196529999f,0.200599998f,0.204820007f,0.209189996f,0.213699996f,0.218349993f,0.223140001f,0.228060007f,0.233089998f,0.238220006f,0.243450001f,0.24876f,0.254150003f,0.259600013f,0.265100002f,0.270639986f,0.27621001f,0.281789988f,0.287349999f,0.292890012f,0.298379987f,0.303799987f,0.309139997f,0.31437999f,0.319499999f,0.324490011f,0.329329997f,0.334030002f,0.338580012f,0.342970014f,0.347200006f,0.351260006f,0.355150014f,0.35887f,0.362399995f,0.365750015f,0.368919998f,0.371899992f,0.374709994f,0.377350003f,0.379810005f,0.382099986f,0.384229988f,0.386200011f,0.388000011f,0.389649987f,0.391140014f,0.39249f,0.393700004f,0.394769996f,0.395709991f,0.396530002f,0.397229999f,0.397819996f,0.398299992f,0.398680001f,0.398959994f,0.399159998f,0.399269998f,0.399309993f,0.399280012f,0.399190009f,0.399040014f,0.39884001f,0.398600012f,0.398319989f,0.398000002f,0.397650003f,0.39726001f,0.396820009f,0.396340013f,0.395819992f,0.395260006f,0.394650012f,0.393999994f,0.393299997f,0.392549992f,0.391759992f,0.390920013f,0.390029997f,0.389099985f,0.388119996f,0.387089998f,0.386020005f,0.384900004f,0.383740008f,0.382530004f,0.381280005f,0.380010009f,0.378699988f,0.37737f,0.376020014f,0.374659985f,0.373279989f,0.371899992f,0.370510012f,0.369120002f,0.367729992f,0.366320014f,0.364899993f,0.363460004f,0.362010002f,0.360529989f,0.359030008f,0.357499987f,0.355940014f,0.354350001f,0.352730006f,0.351069987f,0.349379987f,0.347649992f,0.345880002f,0.344060004f,0.342200011f,0.340299994f,0.338349998f,0.336349994f,0.334289998f,0.332179993f,0.330000013f,0.327760011f,0.325459987f,0.323080003f,0.320630014f,0.318100005f,0.315490007f,0.312810004f,0.310079992f,0.307289988f,0.304470003f,0.30162999f,0.298759997f,0.295899987f,0.293040007f,0.290199995f,0.287389994f,0.284610003f,0.281879991f,0.279190004f,0.276560009f,0.273979992f,0.27147001f,0.269039989f,0.266680002f,0.264400005f,0.262210011f,0.260109991f,0.258100003f,0.256170005f,0.254330009f,0.25255999f,0.250880003f,0.249280006f,0.247749999f,0.246299997f,0.24492f,0.243619993f,0.242369995f,0.241180003f,0.240040004f,0.238949999f,0.237890005f,0.236870006f,0.235880002f,0.234899998f,0.233940005f,0.232999995f,0.232069999f,0.231150001f,0.230250001f,0.229369998f,0.228499994f,0.227650002f,0.226820007f,0.225999996f,0.225199997f,0.224409997f,0.223649994f,0.222900003f,0.222179994f,0.221469998f,0.220789999f,0.220139995f,0.219510004f,0.218899995f,0.218319997f,0.217769995f,0.217260003f,0.216769993f,0.216330007f,0.215920001f,0.215550005f,0.215220004f,0.214939997f,0.214699998f,0.214509994f,0.214369997f,0.214269996f,0.214220002f,0.214220002f,0.214249998f,0.214330003f,0.214450002f,0.214609995f,0.2148f,0.21503f,0.215299994f,0.215599999f,0.215920001f,0.216279998f,0.216659993f,0.217069998f,0.217490003f,0.217940003f,0.218400002f,0.218879998f,0.219369993f,0.21988f,0.220420003f,0.220980003f,0.221560001f,0.222169995f,0.22281f,0.22349f,0.224199995f,0.224940002f,0.225710005f,0.226490006f,0.227249995f,0.227990001f,0.228689998f,0.229340002f,0.22992f,0.230409995f,0.230800003f,0.231419995f,0.23195f,0.232490003f,0.233019993f,0.233559996f,0.23409f,0.234630004f,0.235159993f,0.235699996f,0.23624f,0.236780003f,0.237320006f,0.237859994f,0.238409996f,0.238949999f,0.239490002f,0.240040004f,0.240580007f,0.241129994f,0.241679996f,0.242229998f,0.242770001f,0.243320003f,0.243880004f,0.244430006f,0.244980007f,0.245529994f,0.246089995f,0.246639997f,0.247199997f,0.247749999f,0.24831f,0.24887f,0.249430001f,0.249990001f,0.250550002f,0.251109987f,0.251670003f,0.252240002f,0.252799988f,0.253369987f,0.253930002f,0.254500002f,0.255070001f,0.25564f,0.256209999f,0.256779999f,0.257349998f,0.257919997f,0.258489996f,0.259059995f,0.259640008f,0.260210007f,0.26078999f,0.261370003f,0.261940002f,0.262519985f,0.263099998f,0.263680011f,0.264259994f,0.264840007f,0.26541999f,0.266009986f,0.266589999f,0.267179996f,0.267760009f,0.268350005f,0.268940002f,0.269520015f,0.270110011f,0.270700008f,0.271290004f,0.271880001f,0.272480011f,0.273070008f,0.273660004f,0.274260014f,0.274850011f,0.275449991f};
static const float REF_CES47[400] = {0.142539993f,0.142639995f,0.142739996f,0.142839998f,0.142949998f,0.14305f,0.143150002f,0.143250003f,0.143350005f,0.143460006f,0.143560007f,0.143659994f,0.143759996f,0.143869996f,0.143969998f,0.144069999f,0.144170001f,0.144280002f,0.144380003f,0.144480005f,0.144600004f,0.144679993f,0.144769996f,0.144889995f,0.145009995f,0.145140007f,0.145280004f,0.14542f,0.145549998f,0.145679995f,0.145799994f,0.145909995f,0.146009997f,0.146129996f,0.146280006f,0.146459997f,0.146689996f,0.146990001f,0.147359997f,0.147829995f,0.148399994f,0.149079993f,0.149880007f,0.150790006f,0.151810005f,0.152940005f,0.154170007f,0.155499995f,0.156939998f,0.158470005f,0.160099998f,0.161819994f,0.163640007f,0.165560007f,0.167579994f,0.169699997f,0.17193f,0.174280003f,0.176730007f,0.179309994f,0.181999996f,0.184819996f,0.187759995f,0.190830007f,0.194030002f,0.197369993f,0.200849995f,0.204459995f,0.208230004f,0.212139994f,0.216199994f,0.220420003f,0.224790007f,0.229320005f,0.234009996f,0.238859996f,0.243870005f,0.249050006f,0.254400015f,0.259909987f,0.265599996f,0.271459997f,0.277480006f,0.283670008f,0.290010005f,0.296499997f,0.303130001f,0.309899986f,0.316810012f,0.323839992f,0.331f,0.338270009f,0.34562999f,0.353049994f,0.360520005f,0.368000001f,0.375479996f,0.382919997f,0.390309989f,0.397610009f,0.404799998f,0.411859989f,0.418749988f,0.425449997f,0.431910008f,0.438109994f,0.44400999f,0.449589998f,0.45480001f,0.459609985f,0.463999987f,0.467929989f,0.47141999f,0.47446999f,0.477100015f,0.479330003f,0.481160015f,0.482609987f,0.483689994f,0.484409988f,0.484800011f,0.484860003f,0.484620005f,0.48409f,0.483310014f,0.48229f,0.481059998f,0.479649991f,0.478060007f,0.476339996f,0.4745f,0.472559988f,0.470539987f,0.468430012f,0.466259986f,0.464020014f,0.461730003f,0.459399998f,0.457020015f,0.454620004f,0.452199996f,0.44975999f,0.447320014f,0.444869995f,0.442409992f,0.439949989f,0.437489986f,0.435030013f,0.432579994f,0.430130005f,0.427700013f,0.425280005f,0.42287001f,0.420480013f,0.418119997f,0.415769994f,0.413459986f,0.411170006f,0.408910006f,0.406690001f,0.404500008f,0.402350008f,0.400240004f,0.398169994f,0.396129996f,0.394120008f,0.392150015f,0.390199989f,0.388269991f,0.386379987f,0.384499997f,0.382649988f,0.380809993f,0.379000008f,0.377209991f,0.375429988f,0.373679996f,0.371960014f,0.370249987f,0.368559986f,0.366899997f,0.365260005f,0.36364001f,0.362049997f,0.360480011f,0.358949989f,0.357450008f,0.355980009f,0.354550004f,0.35315001f,0.351799995f,0.350490004f,0.349220008f,0.348010004f,0.346850008f,0.345750004f,0.344709992f,0.34375f,0.34285f,0.342040002f,0.341300011f,0.340649992f,0.340070009f,0.339560002f,0.339109987f,0.338699996f,0.338330001f,0.337980002f,0.337650001f,0.337330014f,0.337000012f,0.336659998f,0.336299986f,0.335909992f,0.335500002f,0.33506f,0.334580004f,0.334060013f,0.333490014f,0.332870007f,0.332199991f,0.331470013f,0.330689996f,0.329860002f,0.328990012f,0.328079998f,0.327140003f,0.326180011f,0.325199991f,0.324200004f,0.323199987f,0.3222f,0.321209997f,0.320250005f,0.319330007f,0.318480015f,0.317690015f,0.317000002f,0.316410005f,0.315939993f,0.315600008f,0.315409988f,0.315380007f,0.315530002f,0.31584999f,0.316359997f,0.317070007f,0.317990005f,0.31911999f,0.320490003f,0.322100013f,0.323960006f,0.326059997f,0.328429997f,0.331059992f,0.333950013f,0.337099999f,0.340539992f,0.34424001f,0.348230004f,0.352499992f,0.357059985f,0.361900002f,0.367020011f,0.372420013f,0.378089994f,0.384020001f,0.39023f,0.396699995f,0.403420001f,0.410400003f,0.417629987f,0.425099999f,0.432799995f,0.440710008f,0.448839992f,0.457159996f,0.46566999f,0.474350005f,0.483200014f,0.492199987f,0.501339972f,0.510609984f,0.519980013f,0.529439986f,0.538969994f,0.548539996f,0.558130026f,0.567740023f,0.577340007f,0.586899996f,0.59641999f,0.605870008f,0.615249991f,0.624549985f,0.633750021f,0.642840028f,0.65180999f,0.660660028f,0.669359982f,0.677900016f,0.686280012f,0.694509983f,0.702589989f,0.710529983f,0.71833998f,0.726029992f,0.733619988f,0.741100013f,0.748489976f,0.755800009f,0.763019979f,0.770089984f,0.776929975f,0.783450007f,0.789579988f,0.795229971f,0.800329983f,0.804799974f,0.80855f,0.811500013f,0.81607002f,0.81990999f,0.823700011f,0.827419996f,0.831070006f,0.834670007f,0.838199973f,0.84167999f,0.845089972f,0.848439991f,0.851729989f,0.854969978f,0.858139992f,0.861259997f,0.864310026f,0.867320001f,0.87026f,0.873149991f,0.87598002f,0.87875998f,0.881489992f,0.884159982f,0.886780024f,0.889349997f,0.891870022f,0.894330025f,0.896749973f,0.899119973f,0.901440024f,0.903710008f,0.905929983f,0.908110023f,0.910239995f,0.912329972f,0.914380014f,0.916379988f,0.918340027f,0.920249999f,0.922129989f,0.92395997f,0.925759971f,0.927510023f,0.929229975f,0.930909991f,0.932560027f,0.934159994f,0.93572998f,0.937269986f,0.938769996f,0.940240026f,0.941680014f,0.943080008f,0.944450021f,0.945789993f,0.947099984f,0.948379993f,0.949630022f,0.95085001f,0.952040017f,0.953209996f,0.954349995f,0.955460012f,0.956550002f,0.957610011f,0.958639979f,0.959659994f,0.960640013f,0.961610019f,0.962549984f,0.963469982f,0.964370012f,0.965250015f,0.966099977f,0.966939986f,0.967760026f,0.968550026f,0.969330013f,0.970089972f,0.970830023f};
static const float REF_CES48[400] = {0.0877619982f,0.0878669992f,0.0879890025f,0.0881249979f,0.0882730037f,0.0884319991f,0.0886000022f,0.0887750015f,0.088955f,0.0891389996f,0.0893250033f,0.0895109996f,0.0896949992f,0.0898749977f,0.090049997f,0.0902180001f,0.090377003f,0.0905250013f,0.0906609967f,0.090783f,0.090888001f,0.0909769982f,0.0910580009f,0.0911379978f,0.0912280008f,0.0913349986f,0.0914689973f,0.0916389972f,0.0918530002f,0.0921209976f,0.0924509987f,0.0928559974f,0.0933620036f,0.093998f,0.0947960019f,0.0957830027f,0.0969899967f,0.0984459966f,0.10018f,0.102229998f,0.104610004f,0.107349999f,0.110440001f,0.113849998f,0.117559999f,0.121540003f,0.125770003f,0.130229995f,0.134890005f,0.139740005f,0.14474f,0.149880007f,0.155149996f,0.160559997f,0.166109994f,0.171790004f,0.177609995f,0.183559999f,0.189659998f,0.195889995f,0.202270001f,0.208790004f,0.215440005f,0.222220004f,0.22913f,0.236159995f,0.243300006f,0.250550002f,0.257910013f,0.265370011f,0.272920012f,0.280559987f,0.288260013f,0.296009988f,0.303770006f,0.311529994f,0.319260001f,0.326929986f,0.334529996f,0.342029989f,0.349400014f,0.356629997f,0.363709986f,0.370649993f,0.377440006f,0.384079993f,0.390579998f,0.396939993f,0.403149992f,0.409229994f,0.41516f,0.420949996f,0.426609993f,0.432139993f,0.437539995f,0.442820013f,0.447979987f,0.453020006f,0.45796001f,0.462799996f,0.467530012f,0.472169995f,0.476709992f,0.481150001f,0.485480011f,0.489710003f,0.493829995f,0.497839987f,0.501739979f,0.505519986f,0.509180009f,0.512719989f,0.516149998f,0.519469976f,0.522689998f,0.525829971f,0.52888f,0.531859994f,0.534770012f,0.537620008f,0.540419996f,0.543179989f,0.545889974f,0.548569977f,0.55122f,0.553830028f,0.556410015f,0.558960021f,0.561479986f,0.563979983f,0.566460013f,0.568920016f,0.571349978f,0.573740005f,0.576089978f,0.578379989f,0.580600023f,0.582750022f,0.584819973f,0.586790025f,0.588660002f,0.590420008f,0.592079997f,0.593630016f,0.595099986f,0.596480012f,0.597790003f,0.599020004f,0.600189984f,0.601300001f,0.60236001f,0.603370011f,0.604340017f,0.605239987f,0.606069982f,0.606830001f,0.607509971f,0.608089983f,0.60856998f,0.608950019f,0.609210014f,0.609350026f,0.609350026f,0.609229982f,0.608969986f,0.60856998f,0.608020008f,0.607320011f,0.606459975f,0.605449975f,0.604269981f,0.602930009f,0.601419985f,0.59977001f,0.597980022f,0.596069992f,0.594030023f,0.591889977f,0.589640021f,0.587310016f,0.584900022f,0.582419991f,0.579859972f,0.577199996f,0.574450016f,0.571590006f,0.568599999f,0.565479994f,0.562210023f,0.558799982f,0.555209994f,0.551450014f,0.547529995f,0.543470025f,0.539269984f,0.534950018f,0.530529976f,0.52601999f,0.521440029f,0.516799986f,0.512109995f,0.507390022f,0.502640009f,0.497860014f,0.493050009f,0.488209993f,0.483330011f,0.478430003f,0.473500013f,0.468529999f,0.463539988f,0.458519995f,0.453469992f,0.448399991f,0.443320006f,0.438239992f,0.433160007f,0.428079993f,0.423029989f,0.417989999f,0.41297999f,0.407999992f,0.403059989f,0.398160011f,0.393290013f,0.38846001f,0.383659989f,0.378899992f,0.374179989f,0.369500011f,0.364859998f,0.36026001f,0.355699986f,0.351190001f,0.34672001f,0.342310011f,0.337960005f,0.33366999f,0.329430014f,0.325269997f,0.321170002f,0.317140013f,0.313190013f,0.309309989f,0.305500001f,0.301770002f,0.298110008f,0.294519991f,0.291009992f,0.28757f,0.284200013f,0.280909985f,0.277689993f,0.274540007f,0.271450013f,0.268440008f,0.265489995f,0.262600005f,0.259770006f,0.256999999f,0.254290015f,0.251630008f,0.249029994f,0.246490002f,0.244010001f,0.241579995f,0.239219993f,0.236919999f,0.234679997f,0.23251f,0.230399996f,0.228359997f,0.226380005f,0.224460006f,0.222599998f,0.220799997f,0.219050005f,0.217340007f,0.215680003f,0.214059994f,0.212479994f,0.210940003f,0.209429994f,0.207949996f,0.206520006f,0.205109999f,0.203740001f,0.202409998f,0.201110005f,0.199849993f,0.198620006f,0.19743f,0.196270004f,0.195140004f,0.194049999f,0.193000004f,0.191980004f,0.191f,0.190050006f,0.189140007f,0.188270003f,0.187429994f,0.186639994f,0.185870007f,0.185139999f,0.184440002f,0.183770001f,0.183129996f,0.182520002f,0.181930006f,0.181370005f,0.180830002f,0.180319995f,0.17983f,0.179370001f,0.178929999f,0.178519994f,0.178130001f,0.177770004f,0.177440003f,0.177129999f,0.176850006f,0.176599994f,0.176369995f,0.176170006f,0.17599f,0.175850004f,0.175720006f,0.175620005f,0.175549999f,0.175500005f,0.175469995f,0.175469995f,0.175500005f,0.175549999f,0.175640002f,0.175750002f,0.175889999f,0.176070005f,0.176280007f,0.176520005f,0.176799998f,0.17712f,0.177469999f,0.177860007f,0.178299993f,0.178770006f,0.179289997f,0.179849997f,0.180460006f,0.181109995f,0.180879995f,0.181270003f,0.181649998f,0.182040006f,0.182429999f,0.182809994f,0.183200002f,0.183589995f,0.183980003f,0.184369996f,0.184760004f,0.185149997f,0.185540006f,0.185939997f,0.186330006f,0.186719999f,0.187120005f,0.187509999f,0.187910005f,0.188309997f,0.188700005f,0.189099997f,0.189500004f,0.189899996f,0.190300003f,0.190699995f,0.191100001f,0.191499993f,0.1919f,0.192300007f,0.192709997f,0.193110004f,0.193519995f,0.193920001f,0.194330007f,0.194729999f,0.195140004f,0.195549995f,0.19596f,0.196370006f,0.196779996f,0.197190002f,0.197600007f,0.198009998f,0.198420003f,0.198840007f,0.199249998f,0.199660003f,0.200080007f};
static const float REF_CES49[400] = {0.00057199999f,0.00197699992f,0.00335899997f,0.00472000008f,0.00606299983f,0.00739100017f,0.00870500039f,0.0100090001f,0.0113059999f,0.0125970002f,0.013886f,0.0151749998f,0.0164659992f,0.017763f,0.0190670006f,0.0203820001f,0.0217090007f,0.0230519995f,0.0244130008f,0.0257949997f,0.0272000004f,0.0286279991f,0.0300689992f,0.0315110013f,0.0329389982f,0.034341f,0.0357050002f,0.037016999f,0.038265001f,0.0394340008f,0.0405139998f,0.0414929986f,0.0423730016f,0.0431570001f,0.0438509993f,0.0444569997f,0.0449809991f,0.0454259999f,0.0457959995f,0.0460949987f,0.0463280007f,0.046498999f,0.0466179997f,0.0466930009f,0.0467340015f,0.046751f,0.0467539988f,0.046751f,0.0467530005f,0.0467690006f,0.046808999f,0.0468799993f,0.0469839983f,0.0471189991f,0.0472860001f,0.0474819988f,0.0477089994f,0.0479639992f,0.0482469983f,0.0485569984f,0.0488939993f,0.049256999f,0.0496499985f,0.0500739999f,0.0505330004f,0.0510290004f,0.051566001f,0.052147001f,0.0527740009f,0.0534510016f,0.0541809984f,0.0549670011f,0.0558140017f,0.0567299984f,0.0577200018f,0.0587910004f,0.0599500015f,0.0612029992f,0.0625550002f,0.0640140027f,0.0655860007f,0.067276001f,0.0690860003f,0.0710169971f,0.0730680004f,0.0752409995f,0.0775360018f,0.0799529999f,0.0824939981f,0.0851589963f,0.0879480019f,0.0908610001f,0.0938920006f,0.0970359966f,0.100280002f,0.103629999f,0.107069999f,0.110600002f,0.114210002f,0.117880002f,0.121629998f,0.125430003f,0.129280001f,0.133139998f,0.137009993f,0.140870005f,0.144679993f,0.148440003f,0.152129993f,0.155729994f,0.159209996f,0.162560001f,0.165790007f,0.168880001f,0.171849996f,0.174689993f,0.177399993f,0.179989994f,0.182449996f,0.18479f,0.187010005f,0.189109996f,0.191080004f,0.192929998f,0.194659993f,0.196270004f,0.197750002f,0.199100003f,0.200330004f,0.201429993f,0.202409998f,0.203260005f,0.203979999f,0.204579994f,0.205060005f,0.205420002f,0.20566f,0.205789998f,0.205809996f,0.205730006f,0.205530003f,0.205229998f,0.204840004f,0.204349995f,0.203779995f,0.203130007f,0.202409998f,0.201619998f,0.200780004f,0.199890003f,0.198949993f,0.197970003f,0.196960002f,0.195899993f,0.194820002f,0.193690002f,0.192530006f,0.191330001f,0.190099999f,0.188840002f,0.187539995f,0.186210006f,0.184839994f,0.183449998f,0.182019994f,0.180559993f,0.179069996f,0.177540004f,0.17599f,0.17441f,0.172790006f,0.171149999f,0.169469997f,0.167779997f,0.166079998f,0.164360002f,0.162630007f,0.160899997f,0.159170002f,0.157450005f,0.155739993f,0.154039994f,0.152360007f,0.150700003f,0.149049997f,0.147410005f,0.145799994f,0.144189999f,0.1426f,0.141029999f,0.139469996f,0.137930006f,0.136399999f,0.134900004f,0.133420005f,0.131970003f,0.130539998f,0.129160002f,0.127810001f,0.126499996f,0.125229999f,0.124009997f,0.122830003f,0.121689998f,0.120590001f,0.119510002f,0.118469998f,0.117449999f,0.116449997f,0.115460001f,0.114490002f,0.113530003f,0.112570003f,0.11163f,0.110689998f,0.10977f,0.108860001f,0.107960001f,0.10706f,0.106190003f,0.105319999f,0.10447f,0.103629999f,0.102799997f,0.101989999f,0.101199999f,0.100419998f,0.0996629968f,0.0989229977f,0.0982030034f,0.0975039974f,0.096826002f,0.0961709991f,0.095540002f,0.0949349999f,0.094355002f,0.0938040018f,0.0932819992f,0.0927900001f,0.0923290029f,0.0919020027f,0.0915080011f,0.0911490023f,0.0908240005f,0.0905319974f,0.0902749971f,0.0900520012f,0.0898619965f,0.089707002f,0.0895849988f,0.089497f,0.0894419998f,0.0894189999f,0.0894239992f,0.0894550011f,0.0895100012f,0.0895849988f,0.0896790028f,0.0897890031f,0.0899109989f,0.0900439993f,0.0901850015f,0.0903349966f,0.090493001f,0.0906609967f,0.0908380002f,0.0910250023f,0.0912220031f,0.091430001f,0.0916490033f,0.0918790027f,0.0921209976f,0.092373997f,0.0926359966f,0.0929069966f,0.0931850001f,0.0934699997f,0.0937590003f,0.0940530002f,0.0943500027f,0.094649002f,0.0949489996f,0.0952489972f,0.0955479965f,0.0958459973f,0.0961429998f,0.0964379981f,0.0967290029f,0.0970169976f,0.0973019972f,0.0975809991f,0.0978550017f,0.0981250033f,0.0983920023f,0.0986559987f,0.098917f,0.0991780013f,0.0994390026f,0.0996999964f,0.0999630019f,0.100230001f,0.100500003f,0.100769997f,0.101049997f,0.101340003f,0.101640001f,0.101949997f,0.102279998f,0.102619998f,0.102980003f,0.103359997f,0.103759997f,0.104180001f,0.104620002f,0.105070002f,0.105530001f,0.10599f,0.106470004f,0.106940001f,0.107419997f,0.107890002f,0.10836f,0.108819999f,0.109279998f,0.109729998f,0.110189997f,0.110639997f,0.111089997f,0.111550003f,0.112000003f,0.112460002f,0.112920001f,0.113389999f,0.113860004f,0.114349999f,0.114840001f,0.115350001f,0.115879998f,0.116420001f,0.116980001f,0.117569998f,0.118179999f,0.118819997f,0.119479999f,0.120169997f,0.120899998f,0.121660002f,0.12246f,0.123290002f,0.124169998f,0.125090003f,0.125349998f,0.126069993f,0.126790002f,0.127519995f,0.128250003f,0.128979996f,0.129720002f,0.130459994f,0.131200001f,0.131950006f,0.132699996f,0.133450001f,0.134210005f,0.134969994f,0.135739997f,0.13651f,0.137280002f,0.138060004f,0.138840005f,0.139620006f,0.140410006f,0.141200006f,0.141990006f,0.142790005f,0.143590003f,0.144400001f,0.145209998f,0.146019995f,0.146840006f,0.147660002f,0.148489997f,0.149320006f,0.150150001f,0.150979996f,0.151820004f,0.152669996f,0.153520003f,0.154369995f,0.155220002f,0.156079993f,0.156949997f,0.157810003f,0.158680007f,0.159559995f,0.160439998f,0.161320001f,0.162210003f,0.163100004f,0.163990006f};
static const float REF_CES50[400] = {0.0788299963f,0.0795029998f,0.0801810026f,0.0808650032f,0.0815529972f,0.0822469965f,0.0829470009f,0.0836519971f,0.0843620002f,0.0850770026f,0.0857990012f,0.0865250006f,0.0872580037f,0.0879959986f,0.0887390003f,0.0894879997f,0.0902429968f,0.0910039991f,0.0917700008f,0.0925420001f,0.0933850035f,0.0941340029f,0.0948980004f,0.0956749991f,0.0964640006f,0.0972660035f,0.0980790034f,0.098902002f,0.0997340009f,0.100570001f,0.10142f,0.102279998f,0.103139997f,0.104010001f,0.104879998f,0.105750002f,0.106629997f,0.10751f,0.108390003f,0.109279998f,0.110160001f,0.111040004f,0.111919999f,0.112800002f,0.113689996f,0.114579998f,0.115479998f,0.116389997f,0.117310002f,0.118239999f,0.11919f,0.12015f,0.121129997f,0.12212f,0.123120002f,0.124130003f,0.125149995f,0.126179993f,0.127220005f,0.128260002f,0.129309997f,0.130360007f,0.131420001f,0.132489994f,0.133570001f,0.134670004f,0.135780007f,0.136920005f,0.13809f,0.139290005f,0.140520006f,0.141790003f,0.143089995f,0.144419998f,0.145769998f,0.147139996f,0.148530006f,0.149920002f,0.151319996f,0.152720004f,0.154119998f,0.155509993f,0.156900004f,0.158299997f,0.159730002f,0.161180004f,0.16268f,0.164230004f,0.165849999f,0.16753f,0.169300005f,0.171169996f,0.173150003f,0.175260007f,0.177540004f,0.180000007f,0.182659999f,0.185550004f,0.188690007f,0.192100003f,0.195800006f,0.199809998f,0.204099998f,0.208639994f,0.213389993f,0.218319997f,0.223409995f,0.228599995f,0.23387f,0.239189997f,0.244530007f,0.249840006f,0.255100012f,0.260259986f,0.265309989f,0.270190001f,0.274890006f,0.279359996f,0.283569992f,0.287479997f,0.291070014f,0.294310004f,0.297199994f,0.299789995f,0.302089989f,0.304120004f,0.305920005f,0.307500005f,0.308899999f,0.31013f,0.31121999f,0.312189996f,0.313030005f,0.313749999f,0.314330012f,0.314770013f,0.315050006f,0.31516999f,0.315120012f,0.314900011f,0.31448999f,0.313899994f,0.313120008f,0.312169999f,0.311060011f,0.309789985f,0.308380008f,0.306840003f,0.30517f,0.303380013f,0.301490009f,0.299499989f,0.297410011f,0.295210004f,0.292899996f,0.290470004f,0.287919998f,0.285239995f,0.282429993f,0.27948001f,0.276380002f,0.273149997f,0.269769996f,0.266279995f,0.26267001f,0.258960009f,0.255169988f,0.251300007f,0.247370005f,0.243389994f,0.239370003f,0.235320002f,0.231279999f,0.227249995f,0.22326f,0.219329998f,0.215489998f,0.211750001f,0.208130002f,0.204659998f,0.201360002f,0.198239997f,0.195299998f,0.192530006f,0.189899996f,0.187419996f,0.185059994f,0.182820007f,0.180680007f,0.178619996f,0.176650003f,0.174740002f,0.172889993f,0.171120003f,0.169420004f,0.167799994f,0.166270003f,0.164829999f,0.163479999f,0.162220001f,0.161070004f,0.160019994f,0.15907f,0.158209994f,0.157440007f,0.156760007f,0.156159997f,0.155619994f,0.155159995f,0.154760003f,0.154420003f,0.154129997f,0.15388f,0.153659999f,0.153459996f,0.153280005f,0.153099999f,0.152919993f,0.152720004f,0.152490005f,0.152229995f,0.151930004f,0.151590005f,0.151219994f,0.150820002f,0.150399998f,0.149969995f,0.149540007f,0.149100006f,0.148680001f,0.148259997f,0.147870004f,0.147499993f,0.147170007f,0.146870002f,0.146620005f,0.146410003f,0.146259993f,0.146160007f,0.146139994f,0.146180004f,0.146300003f,0.146489993f,0.146750003f,0.147070006f,0.14745f,0.147880003f,0.148359999f,0.148890004f,0.149450004f,0.150049999f,0.150680006f,0.151350006f,0.152050003f,0.152789995f,0.153579995f,0.154410005f,0.155300006f,0.156240001f,0.157230005f,0.158289999f,0.15941f,0.160579994f,0.161799997f,0.163069993f,0.164360002f,0.165690005f,0.167030007f,0.168380007f,0.169740006f,0.171090007f,0.172429994f,0.17374f,0.175019994f,0.176259995f,0.177430004f,0.178529993f,0.179550007f,0.180480003f,0.181299999f,0.182009995f,0.182589993f,0.183039993f,0.183400005f,0.183650002f,0.183809996f,0.18389f,0.18389f,0.183840007f,0.183740005f,0.183589995f,0.183420002f,0.18321f,0.182970002f,0.182699993f,0.182400003f,0.182070002f,0.181720003f,0.181349993f,0.180940002f,0.180519998f,0.180069998f,0.1796f,0.179100007f,0.178570002f,0.178029999f,0.177450001f,0.176850006f,0.176210001f,0.175549999f,0.174860001f,0.174140006f,0.173390001f,0.172600001f,0.171780005f,0.170929998f,0.170039997f,0.169119999f,0.168160006f,0.167160004f,0.166130006f,0.165900007f,0.165110007f,0.164340004f,0.163560003f,0.16279f,0.162009999f,0.161249995f,0.160479993f,0.159720004f,0.15896f,0.158209994f,0.157450005f,0.1567f,0.155959994f,0.155210003f,0.154469997f,0.153730005f,0.152999997f,0.152260005f,0.151539996f,0.150810003f,0.150079995f,0.149360001f,0.148650005f,0.147929996f,0.147220001f,0.146510005f,0.145799994f,0.145099998f,0.144400001f,0.143700004f,0.143000007f,0.142309994f,0.141619995f,0.140929997f,0.140249997f,0.139569998f,0.138889998f,0.138209999f,0.137539998f,0.136869997f,0.136199996f,0.135529995f,0.134869993f,0.134210005f,0.133560002f,0.1329f,0.132249996f,0.131600007f,0.130960003f,0.130309999f,0.129669994f,0.129030004f,0.128399998f,0.127770007f,0.12714f,0.126509994f,0.125880003f,0.125259995f,0.124640003f,0.124030001f,0.123410001f,0.1228f,0.122189999f,0.121590003f,0.120980002f,0.120379999f,0.119779997f,0.11919f,0.118589997f,0.118000001f,0.117409997f,0.116829999f,0.116250001f,0.115659997f,0.115089998f,0.11451f,0.113940001f,0.113370001f};
static const float REF_CES51[400] = {0.0995009989f,0.100400001f,0.101300001f,0.10221f,0.103129998f,0.104060002f,0.104989998f,0.105930001f,0.106880002f,0.107840002f,0.108800001f,0.10977f,0.110749997f,0.111740001f,0.112729996f,0.113729998f,0.114739999f,0.115759999f,0.116779998f,0.117810003f,0.118890002f,0.11992f,0.120959997f,0.12201f,0.12308f,0.124159999f,0.125249997f,0.126350001f,0.127460003f,0.128580004f,0.129710004f,0.130840003f,0.131980002f,0.133129999f,0.134279996f,0.135429993f,0.136580005f,0.137740001f,0.138899997f,0.140059993f,0.141220003f,0.142379999f,0.143529996f,0.144690007f,0.145860001f,0.147029996f,0.148200005f,0.149389997f,0.150590003f,0.151800007f,0.153029993f,0.154269993f,0.155530006f,0.156800002f,0.158079997f,0.159370005f,0.160659999f,0.161960006f,0.163249999f,0.164539993f,0.165830001f,0.167109996f,0.168390006f,0.169670001f,0.170959994f,0.172260001f,0.173580006f,0.174919993f,0.176290005f,0.177689999f,0.179130003f,0.180610001f,0.182119995f,0.183660001f,0.185220003f,0.186800003f,0.188390002f,0.18998f,0.191569999f,0.193149999f,0.194710001f,0.196250007f,0.197779998f,0.199320003f,0.200870007f,0.202439994f,0.204060003f,0.205730006f,0.207460001f,0.209279999f,0.211180001f,0.213190004f,0.215340003f,0.217639998f,0.220129997f,0.222829998f,0.225779995f,0.229000002f,0.232519999f,0.236359999f,0.240559995f,0.245130002f,0.250039995f,0.255250007f,0.260720015f,0.266400009f,0.27226001f,0.278259993f,0.284339994f,0.290479988f,0.296629995f,0.302740008f,0.308780015f,0.314689994f,0.320439994f,0.325969994f,0.331239998f,0.336210012f,0.340829998f,0.345050007f,0.348830014f,0.352140009f,0.354990005f,0.357430011f,0.359490007f,0.361189991f,0.362589985f,0.363700002f,0.364569992f,0.36522001f,0.365700006f,0.366030008f,0.366210014f,0.366250008f,0.366129994f,0.365859985f,0.365420014f,0.364829987f,0.364060014f,0.363130003f,0.362029999f,0.36074999f,0.359299988f,0.357690006f,0.355919987f,0.354009986f,0.35194999f,0.34977001f,0.347449988f,0.345019996f,0.342480004f,0.339830011f,0.337060004f,0.334179997f,0.331160009f,0.328000009f,0.324699998f,0.321240008f,0.317609996f,0.313809991f,0.30983001f,0.305660009f,0.301310003f,0.296810001f,0.292180002f,0.287420005f,0.282570004f,0.277630001f,0.272619992f,0.267569989f,0.262490004f,0.257400006f,0.252330005f,0.247319996f,0.242390007f,0.237570003f,0.232910007f,0.228420004f,0.224140003f,0.220100001f,0.216340005f,0.21288f,0.209700003f,0.20679f,0.204119995f,0.201670006f,0.199430004f,0.197380006f,0.195490003f,0.193749994f,0.192129999f,0.190620005f,0.189219996f,0.187940001f,0.186780006f,0.185749993f,0.184860006f,0.184119999f,0.183520004f,0.183080003f,0.182799995f,0.182689995f,0.182730004f,0.182929993f,0.183270007f,0.183730006f,0.184320003f,0.185010001f,0.18581f,0.186700001f,0.187659994f,0.188700005f,0.189779997f,0.190880001f,0.191970006f,0.193039998f,0.19404f,0.194969997f,0.195779994f,0.196470007f,0.196989998f,0.197339997f,0.197520003f,0.197549999f,0.197459996f,0.197249994f,0.196950004f,0.196579993f,0.196150005f,0.195690006f,0.195209995f,0.19472f,0.194250003f,0.193800002f,0.193389997f,0.193020001f,0.192719996f,0.192479998f,0.192330003f,0.192279994f,0.192330003f,0.192489997f,0.192770004f,0.193149999f,0.193619996f,0.194179997f,0.194810003f,0.195500001f,0.196250007f,0.197050005f,0.19788f,0.198750004f,0.199650005f,0.200599998f,0.201590002f,0.202639997f,0.203749999f,0.204919994f,0.206159994f,0.207489997f,0.208900005f,0.2104f,0.21198f,0.213630006f,0.215330005f,0.217089996f,0.218879998f,0.220689997f,0.222519994f,0.224350005f,0.226170003f,0.227970004f,0.229729995f,0.231450006f,0.233089998f,0.234650001f,0.23612f,0.237470001f,0.238680005f,0.239749998f,0.240659997f,0.241390005f,0.241960004f,0.242369995f,0.242650002f,0.242809996f,0.242860004f,0.242809996f,0.242679998f,0.242489994f,0.242239997f,0.241960004f,0.241630003f,0.241270006f,0.240869999f,0.240439996f,0.239979997f,0.239470005f,0.238940001f,0.23838f,0.237780005f,0.237149999f,0.236489996f,0.235799998f,0.235080004f,0.23432f,0.233520001f,0.232679993f,0.231810004f,0.230890006f,0.229939997f,0.228939995f,0.227899998f,0.226809993f,0.225679994f,0.2245f,0.223269999f,0.221990004f,0.220650002f,0.219270006f,0.217830002f,0.217519999f,0.216429994f,0.215350002f,0.214269996f,0.213200003f,0.212129995f,0.211070001f,0.209999993f,0.208949998f,0.207890004f,0.206839994f,0.205799997f,0.204750001f,0.203720003f,0.202680007f,0.201649994f,0.200629994f,0.199599996f,0.198579997f,0.197569996f,0.196559995f,0.195549995f,0.194549993f,0.193550006f,0.192560002f,0.19156f,0.190579996f,0.189590007f,0.188610002f,0.187639996f,0.186670005f,0.185699999f,0.184740007f,0.18378f,0.182820007f,0.181869999f,0.180920005f,0.179969996f,0.179030001f,0.178100005f,0.177159995f,0.176229998f,0.175310001f,0.174390003f,0.173470005f,0.172549993f,0.171639994f,0.170739993f,0.169839993f,0.168939993f,0.168040007f,0.167150006f,0.166260004f,0.165380001f,0.164499998f,0.163619995f,0.162750006f,0.161880001f,0.161019996f,0.160160005f,0.159299999f,0.158450007f,0.157600001f,0.156749994f,0.15591f,0.155070007f,0.154229999f,0.153400004f,0.152579993f,0.151749998f,0.150930002f,0.150110006f,0.149299994f,0.148489997f,0.147689998f,0.146880001f,0.146080002f,0.145290002f,0.144500002f};
static const float REF_CES52[400] = {0.0585950017f,0.0585590005f,0.0585240014f,0.0584880002f,0.0584530011f,0.0584169999f,0.0583820008f,0.0583459996f,0.0583110005f,0.0582749993f,0.0582400002f,0.0582050011f,0.0581689999f,0.0581340007f,0.0580979995f,0.0580630004f,0.0580280013f,0.0579929985f,0.057957001f,0.0579219982f,0.0580150001f,0.0579230003f,0.0578400008f,0.057767f,0.0577029996f,0.0576490015f,0.0576030016f,0.0575649999f,0.0575359985f,0.0575140007f,0.057500001f,0.0574930012f,0.0574930012f,0.057500001f,0.0575129986f,0.0575320013f,0.0575559996f,0.0575870015f,0.0576220006f,0.057661999f,0.0577059984f,0.0577550009f,0.057808999f,0.0578689985f,0.0579360016f,0.0580100007f,0.0580939986f,0.0581859984f,0.0582889989f,0.0584039986f,0.0585310012f,0.0586699992f,0.0588230006f,0.0589910001f,0.0591720007f,0.0593690015f,0.0595810004f,0.0598089993f,0.0600529984f,0.0603130013f,0.0605919994f,0.0608879998f,0.0612029992f,0.0615409985f,0.0619039983f,0.0622930005f,0.0627100021f,0.0631589964f,0.0636409968f,0.0641580001f,0.0647130013f,0.0653060004f,0.0659269989f,0.0665630028f,0.0672049969f,0.0678389966f,0.068452999f,0.0690369979f,0.0695779994f,0.0700640008f,0.0704839975f,0.0708300024f,0.0711140037f,0.0713509992f,0.071558997f,0.0717509985f,0.0719460025f,0.0721580014f,0.0724039972f,0.0726990029f,0.0730599985f,0.0735059977f,0.0740680024f,0.0747800022f,0.075677f,0.0767930001f,0.078162998f,0.079820998f,0.0818020031f,0.0841389969f,0.086868003f,0.0900110006f,0.0935370028f,0.0974050015f,0.101570003f,0.105999999f,0.110650003f,0.11547f,0.120420001f,0.125469998f,0.130559996f,0.135670006f,0.140760005f,0.145809993f,0.150800005f,0.155709997f,0.160510004f,0.165179998f,0.169689998f,0.174030006f,0.178169996f,0.182089999f,0.185790002f,0.189300001f,0.192609996f,0.195749998f,0.198709995f,0.201509997f,0.204170004f,0.206689999f,0.209079996f,0.211349994f,0.213469997f,0.215389997f,0.217089996f,0.218529999f,0.219669998f,0.220479995f,0.220909998f,0.220939994f,0.220520005f,0.219630003f,0.2183f,0.216570005f,0.214469999f,0.212040007f,0.209319994f,0.206349999f,0.203160003f,0.1998f,0.1963f,0.192709997f,0.189030007f,0.185289994f,0.181510001f,0.177699998f,0.173899993f,0.170100003f,0.166339993f,0.162640005f,0.158999994f,0.155450001f,0.151989996f,0.148589998f,0.145270005f,0.142000005f,0.138779998f,0.135600001f,0.132459998f,0.129339993f,0.126230001f,0.12314f,0.120070003f,0.117040001f,0.114069998f,0.111149997f,0.108319998f,0.105590001f,0.102959998f,0.10046f,0.0981009975f,0.0958880037f,0.0938209966f,0.0918909982f,0.0900890008f,0.0884070024f,0.0868370011f,0.0853710026f,0.0839999989f,0.0827160031f,0.0815099999f,0.0803759992f,0.0793099999f,0.0783089995f,0.0773719996f,0.0764970034f,0.0756800026f,0.0749199986f,0.0742139965f,0.0735609978f,0.0729570016f,0.072401002f,0.0718920007f,0.0714280009f,0.0710079968f,0.0706309974f,0.0702949986f,0.0700009987f,0.0697460026f,0.0695300028f,0.0693499967f,0.0692069978f,0.0690950006f,0.0690110028f,0.0689499974f,0.0689089969f,0.0688820034f,0.0688650012f,0.0688550025f,0.0688460022f,0.0688349977f,0.0688190013f,0.0687969998f,0.0687720031f,0.0687450022f,0.0687170029f,0.0686910003f,0.068667002f,0.068648003f,0.0686350018f,0.0686289966f,0.0686319992f,0.0686430037f,0.0686620027f,0.0686869994f,0.0687189996f,0.0687550008f,0.0687960014f,0.0688410029f,0.0688889995f,0.068938002f,0.0689899996f,0.069043003f,0.0691f,0.0691599995f,0.0692259967f,0.0692970008f,0.0693759993f,0.0694610029f,0.0695559978f,0.0696600005f,0.0697740018f,0.0699030012f,0.0700479969f,0.0702140033f,0.0704030022f,0.0706200004f,0.070867002f,0.0711470023f,0.0714650005f,0.0718239993f,0.0722239986f,0.0726649985f,0.0731400028f,0.0736460015f,0.0741780028f,0.0747319981f,0.0753030032f,0.0758880004f,0.0764809996f,0.0770789981f,0.0776769966f,0.0782689974f,0.0788519979f,0.0794190019f,0.0799669996f,0.0804900005f,0.080982998f,0.0814400017f,0.0818580016f,0.0822310001f,0.0825560018f,0.0828339979f,0.0830679983f,0.0832630023f,0.0834209993f,0.0835459977f,0.0836400017f,0.0837080032f,0.0837529972f,0.083777003f,0.0837839991f,0.0837740004f,0.0837469995f,0.083701998f,0.0836400017f,0.0835599974f,0.0834610015f,0.0833450034f,0.0832099989f,0.0830560029f,0.0828830004f,0.0826909989f,0.0824799985f,0.0822509974f,0.082001999f,0.081735f,0.081449002f,0.0811450034f,0.080821f,0.0804800019f,0.0801189989f,0.0797400028f,0.0793429986f,0.0789270028f,0.0784929991f,0.0780410022f,0.0775699988f,0.0770810023f,0.0765739977f,0.076049f,0.0759579986f,0.0755669996f,0.0751779974f,0.0747909993f,0.0744049996f,0.0740220025f,0.0736399963f,0.0732600018f,0.0728819966f,0.0725049973f,0.0721310005f,0.071758002f,0.0713870004f,0.0710180029f,0.0706499964f,0.0702849999f,0.0699210018f,0.0695580021f,0.0691979975f,0.0688389987f,0.0684819967f,0.0681269988f,0.0677729994f,0.0674209967f,0.0670709983f,0.0667219982f,0.0663760006f,0.0660300031f,0.0656870008f,0.0653449968f,0.065004997f,0.064666003f,0.0643299967f,0.0639939979f,0.0636610016f,0.0633289963f,0.0629979968f,0.0626699999f,0.0623419993f,0.0620170012f,0.0616930015f,0.0613700002f,0.0610489994f,0.0607299991f,0.0604129992f,0.0600959994f,0.0597819984f,0.0594689995f,0.059156999f,0.058846999f,0.0585389994f,0.0582319982f,0.0579259992f,0.0576220006f,0.0573199987f,0.057018999f,0.0567199998f,0.0564219989f,0.0561250001f,0.0558300018f,0.0555359982f,0.0552439988f,0.0549539998f,0.0546640009f,0.0543770008f,0.0540900007f,0.0538050011f,0.0535219982f,0.0532400012f,0.0529589988f,0.0526789986f,0.0524020009f,0.0521249995f,0.0518499985f,0.0515759997f,0.0513040014f,0.0510319993f,0.0507629998f,0.0504940003f};
static const float REF_CES53[400] = {0.0727789998f,0.0730260015f,0.0732730031f,0.0735210031f,0.0737700015f,0.0740189999f,0.0742700025f,0.0745209977f,0.0747729987f,0.0750249997f,0.0752789974f,0.0755330026f,0.0757879987f,0.0760440007f,0.0763000026f,0.0765580013f,0.076816f,0.0770749971f,0.077335f,0.0775950029f,0.0778999999f,0.0780949965f,0.0783400014f,0.0786280036f,0.0789510012f,0.079301998f,0.0796720013f,0.0800549984f,0.0804419965f,0.0808259994f,0.0812000036f,0.0815579966f,0.0819030032f,0.082239002f,0.0825729966f,0.0829090029f,0.0832519978f,0.0836080015f,0.0839809999f,0.0843769982f,0.0847999975f,0.085254997f,0.08574f,0.086254999f,0.0867960006f,0.0873619989f,0.0879509971f,0.0885619968f,0.0891909972f,0.0898379982f,0.0904999971f,0.0911760032f,0.0918660015f,0.0925720036f,0.0932929963f,0.0940309986f,0.0947860032f,0.0955599993f,0.0963530019f,0.0971660018f,0.0979999974f,0.0988570005f,0.099740997f,0.100660004f,0.101620004f,0.102629997f,0.103689998f,0.104809999f,0.105999999f,0.107260004f,0.108599998f,0.110030003f,0.111539997f,0.113130003f,0.114820004f,0.116580002f,0.118440002f,0.120370001f,0.122400001f,0.124509998f,0.126699999f,0.128979996f,0.131349996f,0.1338f,0.136350006f,0.138999999f,0.141749993f,0.144600004f,0.14756f,0.150619999f,0.153799996f,0.157089993f,0.160500005f,0.164039999f,0.167710006f,0.171519995f,0.175469995f,0.179570004f,0.183819994f,0.188229993f,0.1928f,0.19754f,0.202460006f,0.207540005f,0.212799996f,0.218219995f,0.223820001f,0.22958f,0.235520005f,0.241620004f,0.247899994f,0.254339993f,0.260910004f,0.267580003f,0.274300009f,0.281049997f,0.287770003f,0.294429988f,0.300999999f,0.307440013f,0.313699991f,0.319750011f,0.325560004f,0.33107999f,0.336279988f,0.341109991f,0.345539987f,0.349530011f,0.353049994f,0.356050014f,0.358500004f,0.36037001f,0.361669987f,0.36243999f,0.362709999f,0.362509996f,0.361860007f,0.360790014f,0.359340012f,0.357529998f,0.355399996f,0.352970004f,0.350250006f,0.347270012f,0.344040006f,0.340579987f,0.336890012f,0.333009988f,0.328940004f,0.324699998f,0.320300013f,0.315759987f,0.311100006f,0.306320012f,0.301440001f,0.296460003f,0.291399986f,0.286280006f,0.281089991f,0.275860012f,0.270599991f,0.265309989f,0.260010004f,0.254709989f,0.249410003f,0.244120002f,0.238849998f,0.233620003f,0.228430003f,0.223279998f,0.218199998f,0.213180006f,0.208240002f,0.203370005f,0.198579997f,0.193869993f,0.189250007f,0.184709996f,0.18028f,0.175940007f,0.171700001f,0.167569995f,0.163540006f,0.159600005f,0.155770004f,0.152040005f,0.148389995f,0.144840002f,0.141369998f,0.137999997f,0.1347f,0.131490007f,0.128350005f,0.125290006f,0.122309998f,0.119400002f,0.116570003f,0.113799997f,0.111100003f,0.10847f,0.105899997f,0.103390001f,0.100950003f,0.0985779986f,0.0962689966f,0.0940280035f,0.0918579996f,0.0897580013f,0.0877309963f,0.085777998f,0.0838999972f,0.0820989981f,0.0803759992f,0.0787290037f,0.0771609992f,0.0756710023f,0.074258998f,0.0729259998f,0.0716710016f,0.0704960003f,0.0693999976f,0.0683830008f,0.0674419999f,0.0665739998f,0.0657740012f,0.065038003f,0.0643640012f,0.0637459978f,0.0631819963f,0.0626680031f,0.0621999986f,0.0617740005f,0.0613880008f,0.0610379986f,0.0607229993f,0.0604390018f,0.0601839982f,0.0599550009f,0.0597499982f,0.0595659986f,0.0593999997f,0.0592500009f,0.0591140017f,0.0589919984f,0.0588809997f,0.0587810017f,0.0586909987f,0.0586090013f,0.0585340001f,0.0584650002f,0.0584000014f,0.0583389997f,0.0582810007f,0.0582260005f,0.0581730008f,0.058123f,0.0580749996f,0.0580289997f,0.0579850003f,0.0579419993f,0.0579000004f,0.0578599982f,0.0578220002f,0.0577909984f,0.0577660017f,0.0577519983f,0.0577489994f,0.0577600002f,0.0577870011f,0.057833001f,0.0579000004f,0.0579890013f,0.0580990016f,0.0582300015f,0.0583789982f,0.0585459992f,0.0587290004f,0.0589280017f,0.0591400005f,0.0593639985f,0.0595999993f,0.0598459989f,0.0601009987f,0.0603669994f,0.0606420003f,0.0609269999f,0.0612219982f,0.0615269989f,0.0618409999f,0.0621660016f,0.0625f,0.0628440008f,0.0631949976f,0.0635539964f,0.0639170036f,0.0642829984f,0.0646499991f,0.0650169998f,0.0653819963f,0.0657439977f,0.0661000013f,0.0664499998f,0.0667930022f,0.067133002f,0.0674699992f,0.0678040013f,0.0681390017f,0.0684740022f,0.0688119978f,0.0691540018f,0.0694999993f,0.069852002f,0.0702039972f,0.0705519989f,0.070890002f,0.0712120011f,0.071514003f,0.0717889965f,0.0720319971f,0.0722369999f,0.0724000037f,0.0726630017f,0.0728870034f,0.0731120035f,0.073338002f,0.0735640004f,0.0737909973f,0.0740180016f,0.0742459968f,0.0744749978f,0.0747049972f,0.0749349967f,0.0751650035f,0.0753969997f,0.0756290033f,0.0758619979f,0.0760949999f,0.0763290003f,0.0765639991f,0.0767989978f,0.0770350024f,0.0772719979f,0.0775090009f,0.0777470022f,0.077986002f,0.0782250017f,0.0784649998f,0.0787059963f,0.0789470002f,0.0791890025f,0.0794320032f,0.0796749964f,0.079919003f,0.0801640004f,0.0804089978f,0.0806559995f,0.0809020028f,0.0811500028f,0.0813980028f,0.0816470012f,0.081896998f,0.0821470022f,0.0823979974f,0.082649f,0.0829019994f,0.0831549987f,0.0834089965f,0.0836630017f,0.0839179978f,0.0841739997f,0.0844310001f,0.0846880004f,0.0849459991f,0.0852050036f,0.0854640007f,0.0857240036f,0.0859849975f,0.0862469971f,0.0865089968f,0.0867720023f,0.0870359987f,0.0873000026f,0.0875660032f,0.0878319964f,0.088097997f,0.0883660018f,0.0886339992f,0.0889030024f,0.0891719982f,0.0894429982f,0.0897139981f,0.0899859965f,0.0902580023f,0.090530999f,0.0908050016f,0.0910800025f,0.0913560018f,0.0916320011f,0.0919089988f,0.0921870023f};
static const float REF_CES54[400] = {0.408569992f,0.411659986f,0.41475001f,0.417860001f,0.420960009f,0.424080014f,0.42719999f,0.430319995f,0.433450013f,0.436589986f,0.439729989f,0.442880005f,0.446029991f,0.449180007f,0.452340007f,0.45550999f,0.45866999f,0.461840004f,0.465020001f,0.468190014f,0.471899986f,0.474260002f,0.477219999f,0.480699986f,0.484600008f,0.48883f,0.493290007f,0.497889996f,0.502539992f,0.507139981f,0.511600018f,0.515850008f,0.51989001f,0.523769975f,0.527509987f,0.531140029f,0.534690022f,0.538200021f,0.541700006f,0.545229971f,0.548799992f,0.552450001f,0.556169987f,0.559930027f,0.563730001f,0.56753999f,0.571349978f,0.575129986f,0.578880012f,0.58257997f,0.586199999f,0.589739978f,0.593200028f,0.59661001f,0.599979997f,0.603330016f,0.606679976f,0.610040009f,0.613439977f,0.616890013f,0.620400012f,0.623989999f,0.62766999f,0.631410003f,0.635209978f,0.639069974f,0.642970026f,0.646910012f,0.650889993f,0.654890001f,0.658900023f,0.662919998f,0.666939974f,0.670960009f,0.674950004f,0.678910017f,0.68283999f,0.686720014f,0.690550029f,0.694310009f,0.698000014f,0.701610029f,0.705139995f,0.708580017f,0.711950004f,0.715229988f,0.718439996f,0.721570015f,0.724619985f,0.727599978f,0.730499983f,0.733319998f,0.736069977f,0.738730013f,0.74131f,0.743789971f,0.746179998f,0.748470008f,0.750660002f,0.752730012f,0.754700005f,0.756550014f,0.758289993f,0.759920001f,0.761439979f,0.762849987f,0.764159977f,0.765359998f,0.766470015f,0.767480016f,0.768400013f,0.769219995f,0.769959986f,0.770609975f,0.771179974f,0.77165997f,0.772069991f,0.772409976f,0.772669971f,0.772870004f,0.773000002f,0.773069978f,0.773090005f,0.773060024f,0.772989988f,0.772889972f,0.772769988f,0.772629976f,0.772480011f,0.77234f,0.772199988f,0.772080004f,0.77196002f,0.77184999f,0.771749973f,0.771640003f,0.771520019f,0.771399975f,0.77125001f,0.771089971f,0.770900011f,0.77068001f,0.770430028f,0.770150006f,0.769840002f,0.769500017f,0.769129992f,0.768719971f,0.768280029f,0.767809987f,0.76730001f,0.766759992f,0.766179979f,0.765559971f,0.764909983f,0.764209986f,0.76345998f,0.762669981f,0.761829972f,0.760940015f,0.75999999f,0.759000003f,0.757950008f,0.756829977f,0.75563997f,0.754369974f,0.753030002f,0.751609981f,0.750100017f,0.74849999f,0.746800005f,0.745000005f,0.743110001f,0.741119981f,0.739059985f,0.736909986f,0.734690011f,0.732410014f,0.730059981f,0.727649987f,0.725199997f,0.7227f,0.720160007f,0.717570007f,0.714929998f,0.712260008f,0.709529996f,0.706770003f,0.703960001f,0.701099992f,0.698199987f,0.695249975f,0.692250013f,0.689180017f,0.686029971f,0.682799995f,0.679459989f,0.676020026f,0.672450006f,0.668749988f,0.664900005f,0.660899997f,0.656750023f,0.652440012f,0.647970021f,0.643360019f,0.638589978f,0.633669972f,0.628600001f,0.623369992f,0.617999971f,0.612479985f,0.606850028f,0.601130009f,0.595369995f,0.589590013f,0.583829999f,0.578130007f,0.572520018f,0.567030013f,0.561699986f,0.55655998f,0.551609993f,0.546869993f,0.542330027f,0.538020015f,0.53391999f,0.530059993f,0.526430011f,0.523039997f,0.519900024f,0.517009974f,0.514360011f,0.511950016f,0.509769976f,0.507799983f,0.506039977f,0.504480004f,0.503109992f,0.501919985f,0.500899971f,0.500039995f,0.499330014f,0.498760015f,0.49831f,0.497979999f,0.497750014f,0.497610003f,0.497539997f,0.497550011f,0.497599989f,0.497700006f,0.497830003f,0.497990012f,0.498180002f,0.498389989f,0.49860999f,0.498829991f,0.499060005f,0.499289989f,0.499500006f,0.49970001f,0.499900013f,0.500119984f,0.500360012f,0.500649989f,0.500989974f,0.501399994f,0.501890004f,0.502489984f,0.503199995f,0.504040003f,0.504999995f,0.506110013f,0.507350028f,0.508740008f,0.510280013f,0.511969984f,0.513819993f,0.51582998f,0.518000007f,0.520340025f,0.522830009f,0.525460005f,0.528199971f,0.531040013f,0.533959985f,0.536949992f,0.539979994f,0.543030024f,0.54610002f,0.549160004f,0.552209973f,0.555239975f,0.558239996f,0.56121999f,0.564159989f,0.567070007f,0.569930017f,0.572740018f,0.575500011f,0.578199983f,0.580850005f,0.583469987f,0.586049974f,0.588620007f,0.591170013f,0.593729973f,0.596300006f,0.598879993f,0.601499975f,0.604149997f,0.60680002f,0.609409988f,0.611940026f,0.614350021f,0.616599977f,0.618650019f,0.620459974f,0.621990025f,0.623199999f,0.625129998f,0.62677002f,0.628419995f,0.630050004f,0.631690025f,0.633319974f,0.634949982f,0.636569977f,0.638199985f,0.63981998f,0.64143002f,0.643050015f,0.644659996f,0.646260023f,0.647870004f,0.649469972f,0.651059985f,0.652660012f,0.654250026f,0.655830026f,0.657410026f,0.658990026f,0.660570025f,0.662140012f,0.663709998f,0.665279984f,0.666840017f,0.66839999f,0.669950008f,0.671500027f,0.673049986f,0.674589992f,0.676129997f,0.677659988f,0.679199994f,0.680719972f,0.682250023f,0.683770001f,0.685280025f,0.686800003f,0.688300014f,0.689809978f,0.691309988f,0.692799985f,0.694299996f,0.695779979f,0.697269976f,0.698750019f,0.700219989f,0.701699972f,0.703159988f,0.704630017f,0.706089973f,0.707539976f,0.708989978f,0.71043998f,0.711880028f,0.713320017f,0.714749992f,0.716180027f,0.717599988f,0.719020009f,0.72043997f,0.721849978f,0.723259985f,0.724659979f,0.726059973f,0.727460027f,0.728850007f,0.730229974f,0.73161f,0.732990026f,0.73435998f,0.735729992f,0.737089992f,0.738449991f,0.739799976f,0.741150022f,0.742489994f};
static const float REF_CES55[400] = {0.30072999f,0.306210011f,0.31152001f,0.316680014f,0.321709991f,0.326609999f,0.331420004f,0.336140007f,0.34077999f,0.345369995f,0.349920005f,0.354440004f,0.358940005f,0.36342001f,0.367870003f,0.372299999f,0.376709998f,0.381099999f,0.385479987f,0.389829993f,0.394160002f,0.398470014f,0.402770013f,0.407050014f,0.411300004f,0.415529996f,0.419739991f,0.423929989f,0.428079993f,0.432220012f,0.436320007f,0.440400004f,0.444449991f,0.44848001f,0.452509999f,0.456519991f,0.460530013f,0.464549989f,0.468580008f,0.47262001f,0.476680011f,0.480769992f,0.484869987f,0.488990009f,0.493120015f,0.497249991f,0.501380026f,0.505500019f,0.509599984f,0.513689995f,0.517750025f,0.521780014f,0.525789976f,0.529779971f,0.533760011f,0.537739992f,0.541729987f,0.545729995f,0.54974997f,0.553799987f,0.557889998f,0.562020004f,0.566190004f,0.570410013f,0.574670017f,0.578980029f,0.583339989f,0.587740004f,0.592199981f,0.596700013f,0.601249993f,0.605849981f,0.610490024f,0.615170002f,0.619859993f,0.624580026f,0.629289985f,0.634010017f,0.638710022f,0.64339f,0.648039997f,0.652649999f,0.657209992f,0.661710024f,0.66614002f,0.670490026f,0.67474997f,0.678910017f,0.68295002f,0.686869979f,0.69066f,0.694310009f,0.697809994f,0.701179981f,0.704419971f,0.707539976f,0.710520029f,0.713389993f,0.716149986f,0.718789995f,0.721319973f,0.723749995f,0.72608f,0.728299975f,0.730430007f,0.732460022f,0.734380007f,0.736220002f,0.737959981f,0.739600003f,0.741150022f,0.742609978f,0.74397999f,0.745249987f,0.74642998f,0.74752003f,0.748510003f,0.74940002f,0.750199974f,0.750899971f,0.751510024f,0.752020001f,0.752430022f,0.752749979f,0.752979994f,0.753120005f,0.753180027f,0.753149986f,0.753040016f,0.752849996f,0.752590001f,0.752250016f,0.751839995f,0.751349986f,0.750769973f,0.750100017f,0.749350011f,0.74849999f,0.747560024f,0.746519983f,0.745369971f,0.744120002f,0.742760003f,0.741299987f,0.739750028f,0.738099992f,0.736360013f,0.734529972f,0.732609987f,0.730610013f,0.72852999f,0.726369977f,0.724129975f,0.721809983f,0.719389975f,0.716889977f,0.714280009f,0.711579978f,0.708779991f,0.705860019f,0.702839971f,0.699699998f,0.696449995f,0.693099976f,0.689639986f,0.686079979f,0.682430029f,0.678680003f,0.674849987f,0.670939982f,0.666939974f,0.66286999f,0.658739984f,0.654550016f,0.650330007f,0.646070004f,0.641799986f,0.637530029f,0.633260012f,0.629019976f,0.624800026f,0.620630026f,0.61650002f,0.612420022f,0.608399987f,0.604439974f,0.600530028f,0.596700013f,0.592930019f,0.589240015f,0.585619986f,0.582080007f,0.578620017f,0.575209975f,0.571860015f,0.568560004f,0.565299988f,0.562059999f,0.558839977f,0.555630028f,0.55242002f,0.549199998f,0.545970023f,0.54272002f,0.539439976f,0.536109984f,0.53275001f,0.529320002f,0.525839984f,0.522279978f,0.518649995f,0.514940023f,0.51117003f,0.507359982f,0.503549993f,0.499749988f,0.495999992f,0.492320001f,0.488739997f,0.485280007f,0.481959999f,0.478810012f,0.475840002f,0.473030001f,0.470389992f,0.467909992f,0.46559f,0.463429987f,0.461430013f,0.459580004f,0.45787999f,0.456330001f,0.454919994f,0.453640014f,0.452490002f,0.451460004f,0.45054999f,0.449750006f,0.449050009f,0.448439986f,0.447919995f,0.447479993f,0.447120011f,0.446830004f,0.446610004f,0.446440011f,0.446330011f,0.446269989f,0.446249992f,0.446260005f,0.446310014f,0.446379989f,0.44648999f,0.446619987f,0.446779996f,0.446990013f,0.447230011f,0.447510004f,0.447829992f,0.448199987f,0.448619992f,0.449090004f,0.449620008f,0.450210005f,0.450870007f,0.451599985f,0.452410012f,0.453299999f,0.454290003f,0.455370009f,0.456559986f,0.457850009f,0.45923999f,0.460729986f,0.462300003f,0.463959992f,0.465680003f,0.467480004f,0.469330013f,0.471240014f,0.47319001f,0.47518f,0.477209985f,0.479259998f,0.481330007f,0.483410001f,0.485500008f,0.487580001f,0.489659995f,0.491719991f,0.49375999f,0.495770007f,0.497750014f,0.49970001f,0.501609981f,0.503470004f,0.505299985f,0.507080019f,0.508809984f,0.51049f,0.512120008f,0.513689995f,0.515200019f,0.516640007f,0.51801002f,0.519309998f,0.520529985f,0.52165997f,0.522700012f,0.523649991f,0.524500012f,0.525250018f,0.525900006f,0.526459992f,0.526939988f,0.527350008f,0.527689993f,0.527970016f,0.528199971f,0.52838999f,0.528540015f,0.528659999f,0.528760016f,0.528840005f,0.528919995f,0.528989971f,0.529060006f,0.529150009f,0.529250026f,0.529380023f,0.529540002f,0.529739976f,0.529980004f,0.530279994f,0.53065002f,0.531090021f,0.531620026f,0.532249987f,0.532970011f,0.533819973f,0.534780025f,0.535880029f,0.537100017f,0.53846997f,0.539960027f,0.541580021f,0.543340027f,0.545229971f,0.547249973f,0.549399972f,0.551680028f,0.554099977f,0.556659997f,0.559400022f,0.562330008f,0.565479994f,0.568859994f,0.572489977f,0.576399982f,0.580609977f,0.58513999f,0.589980006f,0.595049977f,0.600229979f,0.605400026f,0.610450029f,0.615270019f,0.619740009f,0.623740017f,0.627170026f,0.629909992f,0.631879985f,0.633140028f,0.633790016f,0.633939981f,0.63369f,0.633140028f,0.632380009f,0.631519973f,0.630670011f,0.629909992f,0.629339993f,0.628939986f,0.628709972f,0.628620028f,0.62865001f,0.628780007f,0.628989995f,0.629260004f,0.629580021f,0.629909992f,0.630240023f,0.630559981f,0.63082999f,0.631039977f,0.631169975f,0.631200016f,0.631110013f,0.630879998f,0.630479991f};
static const float REF_CES56[400] = {0.155210003f,0.158450007f,0.161750004f,0.165110007f,0.168520004f,0.171990007f,0.175510004f,0.179089993f,0.182730004f,0.186430007f,0.190180004f,0.193990007f,0.197850004f,0.201780006f,0.205760002f,0.209800005f,0.2139f,0.218060002f,0.222269997f,0.226549998f,0.2315f,0.234889999f,0.239109993f,0.243980005f,0.249349996f,0.255030006f,0.260839999f,0.26662001f,0.272190005f,0.27737999f,0.282009989f,0.285950005f,0.289249986f,0.291990012f,0.294259995f,0.296160012f,0.29776001f,0.29914999f,0.300419986f,0.301670015f,0.302969992f,0.304399997f,0.30596f,0.307639986f,0.30941999f,0.311300009f,0.313250005f,0.315270007f,0.317339987f,0.319449991f,0.321579993f,0.323729992f,0.325890005f,0.328079998f,0.33028999f,0.332529992f,0.334809989f,0.33713001f,0.339489996f,0.341899991f,0.344370008f,0.346899986f,0.349510014f,0.352230012f,0.355080009f,0.35808f,0.361250013f,0.364609987f,0.368200004f,0.37202999f,0.376120001f,0.380490005f,0.385120004f,0.389990002f,0.395069987f,0.400319993f,0.405730009f,0.411260009f,0.416900009f,0.422610015f,0.428359985f,0.434139997f,0.43998f,0.445910007f,0.451950014f,0.458149999f,0.464529991f,0.471139997f,0.477999985f,0.485150009f,0.492619991f,0.500429988f,0.508530021f,0.516870022f,0.525380015f,0.533990026f,0.542659998f,0.551310003f,0.559889972f,0.56832999f,0.576579988f,0.584580004f,0.592299998f,0.599740028f,0.606869996f,0.613680005f,0.620159984f,0.626290023f,0.632059991f,0.63744998f,0.642440021f,0.647029996f,0.65121001f,0.654990017f,0.658379972f,0.661369979f,0.663980007f,0.666199982f,0.668049991f,0.669529974f,0.670629978f,0.671370029f,0.671769977f,0.671840012f,0.671589971f,0.671060026f,0.670239985f,0.669179976f,0.667869985f,0.666339993f,0.664610028f,0.662689984f,0.660600007f,0.658330023f,0.655900002f,0.653320014f,0.650590003f,0.647719979f,0.644720018f,0.641600013f,0.638360023f,0.635010004f,0.631550014f,0.627979994f,0.624300003f,0.620519996f,0.616620004f,0.612609982f,0.608500004f,0.604269981f,0.599940002f,0.595499992f,0.590939999f,0.586279988f,0.581510007f,0.57664001f,0.571659982f,0.566579998f,0.561389983f,0.556100011f,0.550710022f,0.545220017f,0.539640009f,0.533969998f,0.528230011f,0.522409976f,0.516539991f,0.510609984f,0.504639983f,0.498629987f,0.49259001f,0.486530006f,0.480450004f,0.474359989f,0.468270004f,0.462179989f,0.456090003f,0.450019985f,0.443960011f,0.437920004f,0.431910008f,0.425929993f,0.41997999f,0.41407001f,0.408170015f,0.402310014f,0.396459997f,0.390639991f,0.384840012f,0.379049987f,0.373279989f,0.367520005f,0.361779988f,0.356050014f,0.350340009f,0.34465f,0.338979989f,0.333330005f,0.327699989f,0.32209f,0.316509992f,0.310950011f,0.305420011f,0.299930006f,0.294470012f,0.289039999f,0.283659995f,0.278329998f,0.273039997f,0.267809987f,0.262629986f,0.257510006f,0.252460003f,0.247500002f,0.242630005f,0.237869993f,0.233219996f,0.228709996f,0.224340007f,0.220129997f,0.216089994f,0.212229997f,0.208539993f,0.205029994f,0.201710001f,0.198559999f,0.195590004f,0.192790002f,0.190180004f,0.187739998f,0.18547f,0.183379993f,0.181449994f,0.179670006f,0.178039998f,0.176530004f,0.175139993f,0.173859999f,0.172670007f,0.171570003f,0.170540005f,0.169569999f,0.16866f,0.167799994f,0.166989997f,0.166209996f,0.165480003f,0.164780006f,0.164100006f,0.163450003f,0.162809998f,0.162190005f,0.161579996f,0.160980001f,0.160390005f,0.159810007f,0.159240007f,0.158680007f,0.158130005f,0.157580003f,0.15704f,0.156509995f,0.155990005f,0.155479997f,0.155000001f,0.154550001f,0.154139996f,0.153760001f,0.153439999f,0.153160006f,0.152950004f,0.152799994f,0.152720004f,0.152700007f,0.15275f,0.152860001f,0.153040007f,0.153290004f,0.153600007f,0.153980002f,0.154430002f,0.154949993f,0.155530006f,0.156189993f,0.156920001f,0.15772f,0.158610001f,0.159569994f,0.160610005f,0.161740005f,0.162949994f,0.164250001f,0.16561f,0.167030007f,0.168479994f,0.169939995f,0.171409994f,0.172849998f,0.174250007f,0.175600007f,0.176870003f,0.178049996f,0.179159999f,0.180209994f,0.181199998f,0.182160005f,0.183109999f,0.184049994f,0.185000002f,0.185969993f,0.186989993f,0.188060001f,0.189160004f,0.190270007f,0.191359997f,0.192430004f,0.193440005f,0.194370002f,0.195199996f,0.195910007f,0.196470007f,0.197369993f,0.198129997f,0.198909998f,0.199680001f,0.200450003f,0.201230004f,0.202010006f,0.202790007f,0.203569993f,0.204359993f,0.205149993f,0.205939993f,0.206729993f,0.207530007f,0.208330005f,0.209120005f,0.209930003f,0.210730001f,0.211539999f,0.212349996f,0.213159993f,0.213970006f,0.214790002f,0.215599999f,0.216419995f,0.217250004f,0.21807f,0.218899995f,0.219730005f,0.220559999f,0.221389994f,0.222230002f,0.223059997f,0.223900005f,0.224749997f,0.225590006f,0.226439998f,0.227290004f,0.228139997f,0.228990003f,0.229849994f,0.23071f,0.231570005f,0.232429996f,0.2333f,0.234160006f,0.235029995f,0.2359f,0.236780003f,0.237650007f,0.238529995f,0.239409998f,0.240290001f,0.241180003f,0.242070004f,0.242960006f,0.243849993f,0.244739994f,0.245639995f,0.246539995f,0.247439995f,0.248339996f,0.249239996f,0.250149995f,0.251060009f,0.251969993f,0.252889991f,0.253800005f,0.254720002f,0.25564f,0.256559998f,0.257490009f,0.258410007f,0.259339988f,0.26027f,0.261209995f,0.262140006f,0.263080001f,0.264019996f};
static const float REF_CES57[400] = {0.1347f,0.134749994f,0.134819999f,0.134880006f,0.13493f,0.134969994f,0.134990007f,0.134979993f,0.13493f,0.134839997f,0.1347f,0.134509996f,0.134279996f,0.134049997f,0.133849993f,0.133699998f,0.133629993f,0.133670002f,0.133839995f,0.134169996f,0.1347f,0.135429993f,0.136350006f,0.13741f,0.138589993f,0.139840007f,0.14113f,0.142429993f,0.143700004f,0.144899994f,0.145999998f,0.146970004f,0.147839993f,0.148609996f,0.149320006f,0.149990007f,0.150649995f,0.151309997f,0.152009994f,0.152759999f,0.153600007f,0.154540002f,0.155579999f,0.156729996f,0.157989994f,0.159339994f,0.160809994f,0.162369996f,0.164049998f,0.165820003f,0.167699993f,0.169679999f,0.171759993f,0.173940003f,0.176210001f,0.178570002f,0.181020007f,0.18355f,0.186159998f,0.188840002f,0.191599995f,0.194429994f,0.197329998f,0.200320005f,0.203380004f,0.206540003f,0.209790006f,0.213129997f,0.216580003f,0.220129997f,0.223800004f,0.227579996f,0.231490001f,0.235510007f,0.239659995f,0.243939996f,0.248359993f,0.252909988f,0.257589996f,0.262419999f,0.267399997f,0.272520006f,0.277779996f,0.283170015f,0.28865999f,0.294270009f,0.299959987f,0.305729985f,0.311569989f,0.317460001f,0.323399991f,0.329369992f,0.335359991f,0.341369987f,0.347369999f,0.353359997f,0.359320015f,0.365249991f,0.37112999f,0.376949996f,0.382699996f,0.388370007f,0.393929988f,0.399379998f,0.404680014f,0.409830004f,0.414799988f,0.419569999f,0.424120009f,0.428440005f,0.432500005f,0.436289996f,0.439799994f,0.443040013f,0.446009994f,0.448700011f,0.451110005f,0.453249991f,0.455110013f,0.456690013f,0.458000004f,0.459030002f,0.459800005f,0.460299999f,0.46055001f,0.46055001f,0.460310012f,0.45984f,0.459140003f,0.458229989f,0.457100004f,0.455769986f,0.454250008f,0.45254001f,0.45065999f,0.448610008f,0.446399987f,0.444050014f,0.44156f,0.438939989f,0.436199993f,0.433349997f,0.43039f,0.427329987f,0.42414999f,0.42087999f,0.417499989f,0.414020002f,0.410450011f,0.406769991f,0.402999997f,0.399129987f,0.395170003f,0.391099989f,0.386920005f,0.382640004f,0.378239989f,0.37371999f,0.369069993f,0.364300013f,0.359400004f,0.354369998f,0.349209994f,0.34393999f,0.338580012f,0.333130002f,0.327609986f,0.322039992f,0.316419989f,0.310770005f,0.305099994f,0.299419999f,0.293760002f,0.288109988f,0.282499999f,0.276939988f,0.271429986f,0.266000003f,0.260659993f,0.255419999f,0.25029999f,0.245299995f,0.240429997f,0.23567f,0.231040001f,0.226510003f,0.222100005f,0.217800006f,0.213599995f,0.2095f,0.205500007f,0.201590002f,0.19777f,0.194030002f,0.190349996f,0.186739996f,0.183190003f,0.179690003f,0.176229998f,0.172800004f,0.169400007f,0.166020006f,0.162640005f,0.159270003f,0.155880004f,0.152469993f,0.14903f,0.145539999f,0.141990006f,0.138380006f,0.1347f,0.130940005f,0.127120003f,0.123290002f,0.119479999f,0.115719996f,0.112060003f,0.108520001f,0.105140001f,0.101949997f,0.0989999995f,0.096307002f,0.0938649997f,0.0916609988f,0.0896779969f,0.0879030004f,0.0863189995f,0.0849110037f,0.0836659968f,0.0825669989f,0.0816000029f,0.0807500035f,0.0800039992f,0.0793500021f,0.0787750036f,0.0782670006f,0.0778139979f,0.0774030015f,0.0770220011f,0.0766590014f,0.0763000026f,0.0759370029f,0.0755689964f,0.0752020031f,0.0748369992f,0.0744780004f,0.0741290003f,0.0737939999f,0.0734750032f,0.0731759965f,0.0728999972f,0.0726490021f,0.0724160001f,0.0721919984f,0.0719669983f,0.0717329979f,0.0714799985f,0.0711989999f,0.070882f,0.0705180019f,0.070100002f,0.0696180016f,0.0690649971f,0.0684349984f,0.0677210018f,0.0669159964f,0.0660139993f,0.0650079995f,0.0638919994f,0.062657997f,0.0612999983f,0.0598170012f,0.0582260005f,0.0565509982f,0.0548139997f,0.0530400015f,0.0512499996f,0.0494679995f,0.0477170013f,0.0460200012f,0.0443999991f,0.0428769998f,0.0414550006f,0.0401359983f,0.0389220007f,0.0378130004f,0.0368110016f,0.035916999f,0.0351330005f,0.0344609991f,0.0339000002f,0.0334520005f,0.0331090018f,0.0328640006f,0.0327080004f,0.0326340012f,0.0326329991f,0.0326969996f,0.0328180008f,0.032988999f,0.0331999995f,0.0334549993f,0.0337990001f,0.0342880003f,0.0349790007f,0.0359270014f,0.0371889994f,0.0388210006f,0.0408799984f,0.0434210002f,0.0465000011f,0.0501420014f,0.054237999f,0.0586489998f,0.0632359982f,0.0678580031f,0.0723749995f,0.0766479969f,0.0805360004f,0.0838999972f,0.0865999982f,0.0885360017f,0.0897699967f,0.0904039964f,0.0905390009f,0.090278998f,0.0897239968f,0.0889770016f,0.0881389976f,0.0873129964f,0.0865999982f,0.0860809982f,0.0857509971f,0.0855809972f,0.0855439976f,0.0856140032f,0.085763f,0.0859630033f,0.0861880034f,0.0864090025f,0.0865999982f,0.0867390037f,0.0868280008f,0.0868730024f,0.086883001f,0.086864002f,0.0868239999f,0.0867709965f,0.0867099985f,0.0866509974f,0.0865999982f,0.0865629986f,0.0865390003f,0.0865269974f,0.0865240023f,0.0865290016f,0.0865399987f,0.0865539983f,0.0865700021f,0.0865859985f,0.0865999982f,0.0866099969f,0.086616002f,0.086620003f,0.086620003f,0.0866189972f,0.086616002f,0.0866120011f,0.0866080001f,0.0866039991f,0.0865999982f,0.086597003f,0.0865959972f,0.0865949988f,0.0865940005f,0.0865949988f,0.0865959972f,0.086597003f,0.0865980014f,0.0865989998f,0.0865999982f,0.0866009966f,0.0866009966f,0.0866020024f,0.0866020024f,0.0866020024f,0.0866020024f,0.0866009966f,0.0866009966f,0.0865999982f,0.0865999982f,0.0865999982f,0.0865989998f,0.0865989998f,0.0865980014f,0.0865980014f,0.0865980014f,0.0865980014f,0.0865989998f,0.0865989998f};
static const float REF_CES58[400] = {0.106059998f,0.106870003f,0.107699998f,0.108560003f,0.109439999f,0.110349998f,0.111280002f,0.112219997f,0.113179997f,0.114150003f,0.115139998f,0.116140001f,0.117150001f,0.118160002f,0.119180001f,0.120200001f,0.121229999f,0.122249998f,0.123280004f,0.124300003f,0.125310004f,0.126320004f,0.127320006f,0.128319994f,0.129319996f,0.130329996f,0.131339997f,0.132359996f,0.133389995f,0.134440005f,0.135499999f,0.136580005f,0.137689993f,0.138809994f,0.139960006f,0.141139999f,0.142340004f,0.143580005f,0.144840002f,0.146139994f,0.147469997f,0.148839995f,0.150240004f,0.151669994f,0.153139994f,0.154640004f,0.156169996f,0.157739997f,0.159329996f,0.160940006f,0.162589997f,0.16426f,0.165959999f,0.167699993f,0.169469997f,0.171279997f,0.173130006f,0.175029993f,0.176980004f,0.178979993f,0.181030005f,0.183139995f,0.185330003f,0.187590003f,0.189950004f,0.192420006f,0.194999993f,0.197710007f,0.200560004f,0.203559995f,0.206729993f,0.210069999f,0.213579997f,0.217270002f,0.221139997f,0.22518f,0.229399994f,0.233799994f,0.238370001f,0.24312f,0.248040006f,0.253140002f,0.258390009f,0.263779998f,0.269279987f,0.274859995f,0.280519992f,0.286220014f,0.291949987f,0.297679991f,0.303389996f,0.309060007f,0.31468001f,0.320250005f,0.32574001f,0.331160009f,0.336499989f,0.341740012f,0.346879989f,0.351900011f,0.356810004f,0.361589998f,0.366210014f,0.370669991f,0.374940008f,0.379009992f,0.382849991f,0.386440009f,0.389780015f,0.392820001f,0.39557001f,0.398000002f,0.40011999f,0.401930004f,0.403450012f,0.404680014f,0.405640006f,0.406329989f,0.406769991f,0.406949997f,0.406899989f,0.406619996f,0.406120002f,0.405409992f,0.404500008f,0.403409988f,0.402150005f,0.400730014f,0.399159998f,0.39745f,0.395619988f,0.393669993f,0.391609997f,0.389450014f,0.387180001f,0.384829998f,0.382380009f,0.37985f,0.377229989f,0.374550015f,0.371789992f,0.368970007f,0.366079986f,0.363139987f,0.360130012f,0.357069999f,0.353949994f,0.350769997f,0.347539991f,0.344269991f,0.340939999f,0.337570012f,0.334140003f,0.330669999f,0.327149987f,0.323570013f,0.319950014f,0.316269994f,0.312530011f,0.308750004f,0.304899991f,0.300999999f,0.297039986f,0.293029994f,0.288980007f,0.284880012f,0.280730009f,0.276549995f,0.272329986f,0.268079996f,0.263799995f,0.259490013f,0.255169988f,0.250829995f,0.246490002f,0.242149994f,0.237819999f,0.233510002f,0.229230002f,0.224979997f,0.220770001f,0.21661f,0.212490007f,0.208409995f,0.204349995f,0.200330004f,0.196329996f,0.192340001f,0.188360006f,0.184389994f,0.180409998f,0.176430002f,0.172440007f,0.168459997f,0.164480001f,0.160510004f,0.156550005f,0.152610004f,0.148680001f,0.144779995f,0.14091f,0.13707f,0.133259997f,0.129490003f,0.125770003f,0.122089997f,0.118479997f,0.114909999f,0.111419998f,0.107989997f,0.104630001f,0.101350002f,0.0981549993f,0.0950499997f,0.0920419991f,0.0891370028f,0.0863419995f,0.0836630017f,0.081106998f,0.0786809996f,0.0763899982f,0.0742399991f,0.0722270012f,0.0703459978f,0.0685930029f,0.0669630021f,0.0654510036f,0.0640510023f,0.0627589971f,0.0615709983f,0.0604799986f,0.0594829991f,0.0585730001f,0.057746999f,0.0569979995f,0.0563220009f,0.0557130016f,0.0551670007f,0.0546780005f,0.0542399995f,0.0538499989f,0.0535020009f,0.0531920008f,0.0529169999f,0.0526739992f,0.0524590015f,0.0522699989f,0.0521030016f,0.0519540012f,0.0518210009f,0.0516999997f,0.0515879989f,0.0514849983f,0.0513899997f,0.0513029993f,0.0512240008f,0.0511530004f,0.051089f,0.0510319993f,0.0509830005f,0.0509399995f,0.0509039983f,0.0508779995f,0.0508649983f,0.0508680008f,0.0508890003f,0.0509329997f,0.0510010011f,0.0510989986f,0.0512269996f,0.0513899997f,0.0515899993f,0.0518269986f,0.052099999f,0.0524099991f,0.0527549982f,0.0531340018f,0.0535480008f,0.0539960004f,0.0544769987f,0.054990001f,0.0555349998f,0.0561119989f,0.0567179993f,0.0573530011f,0.0580159985f,0.0587060004f,0.0594209991f,0.0601609983f,0.060924001f,0.06171f,0.0625170022f,0.0633419976f,0.064181f,0.0650330037f,0.0658920035f,0.066757001f,0.0676229969f,0.0684880018f,0.069348f,0.0702000037f,0.0710410029f,0.0718709975f,0.0726889968f,0.0734950006f,0.0742880031f,0.0750690028f,0.0758370012f,0.076591f,0.0773319975f,0.0780600011f,0.0787729993f,0.079467997f,0.0801429972f,0.0807920024f,0.0814120024f,0.0820010006f,0.0825539976f,0.0830669999f,0.0835369974f,0.0839599967f,0.0843340009f,0.0846569985f,0.0849319994f,0.0851589963f,0.0853369981f,0.085469f,0.0855550021f,0.0855939984f,0.0855889991f,0.0855399966f,0.0854479969f,0.0853179991f,0.0851560012f,0.084968999f,0.0847600028f,0.0845379978f,0.084307f,0.0840729997f,0.0838420019f,0.0836199969f,0.0834129974f,0.0832260028f,0.0830660015f,0.0829370022f,0.0828469992f,0.0828009993f,0.0828040019f,0.082863003f,0.0829830021f,0.0831699967f,0.082468003f,0.0823559985f,0.0822449997f,0.082134001f,0.0820230022f,0.0819120035f,0.0818009973f,0.0816909969f,0.0815799981f,0.0814699978f,0.0813599974f,0.081249997f,0.0811399966f,0.0810299963f,0.0809200034f,0.0808110014f,0.080701001f,0.080591999f,0.080482997f,0.0803740025f,0.0802650005f,0.0801559985f,0.0800480023f,0.0799390003f,0.0798309967f,0.0797230005f,0.0796149969f,0.0795070007f,0.0793989971f,0.079291001f,0.0791840032f,0.0790759996f,0.0789690018f,0.0788619965f,0.0787549987f,0.078648001f,0.0785420015f,0.0784349963f,0.0783289969f,0.0782219991f,0.0781159997f,0.0780100003f,0.0779040009f,0.0777980015f,0.0776930004f,0.077587001f,0.077482f,0.0773760006f,0.0772709996f};
static const float REF_CES59[400] = {0.184709996f,0.194010004f,0.203669995f,0.21367f,0.224030003f,0.234740004f,0.245800003f,0.257209986f,0.268959999f,0.281040013f,0.293449998f,0.306169987f,0.319189996f,0.332500011f,0.346089989f,0.359930009f,0.374009997f,0.388300002f,0.40279001f,0.417450011f,0.434500009f,0.445879996f,0.46006f,0.47646001f,0.494489998f,0.513570011f,0.533110023f,0.552529991f,0.571240008f,0.588660002f,0.604200006f,0.617420018f,0.628409982f,0.637409985f,0.644659996f,0.650380015f,0.654829979f,0.658230007f,0.660809994f,0.662829995f,0.664499998f,0.66602999f,0.667460024f,0.668789983f,0.670029998f,0.671169996f,0.672230005f,0.673189998f,0.674080014f,0.674880028f,0.675599992f,0.676249981f,0.676829994f,0.677359998f,0.677850008f,0.678300023f,0.678740025f,0.679170012f,0.679589987f,0.680040002f,0.680499971f,0.680999994f,0.681529999f,0.682099998f,0.682690024f,0.683319986f,0.683979988f,0.684669971f,0.685389996f,0.686129987f,0.68690002f,0.687699974f,0.688520014f,0.68937999f,0.690270007f,0.691190004f,0.69216001f,0.693170011f,0.69423002f,0.695339978f,0.696500003f,0.697719991f,0.699000001f,0.700349987f,0.701789975f,0.703320026f,0.704940021f,0.706669986f,0.708519995f,0.710489988f,0.712599993f,0.714839995f,0.717230022f,0.719739974f,0.722370028f,0.725130022f,0.727999985f,0.730970025f,0.734049976f,0.737230003f,0.740499973f,0.743849993f,0.747290015f,0.75079f,0.754350007f,0.757960021f,0.761619985f,0.765309989f,0.769020021f,0.772759974f,0.776499987f,0.780239999f,0.783959985f,0.787630022f,0.791230023f,0.794730008f,0.798120022f,0.801360011f,0.804440022f,0.807330012f,0.810000002f,0.812439978f,0.814639986f,0.816619992f,0.818369985f,0.819899976f,0.821219981f,0.822319984f,0.823210001f,0.823909998f,0.824400008f,0.824699998f,0.824810028f,0.824739993f,0.824490011f,0.824069977f,0.823490024f,0.822740018f,0.821839988f,0.820789993f,0.819599986f,0.818270028f,0.816799998f,0.815199971f,0.813470006f,0.811600029f,0.809599996f,0.807470024f,0.805209994f,0.802820027f,0.800300002f,0.797659993f,0.794889987f,0.792010009f,0.789020002f,0.78591001f,0.782700002f,0.779389977f,0.775990009f,0.772490025f,0.768899977f,0.76523f,0.76147002f,0.757619977f,0.753669977f,0.749629974f,0.745500028f,0.741259992f,0.736909986f,0.732460022f,0.727900028f,0.723230004f,0.718460023f,0.713620007f,0.708729982f,0.703800023f,0.698849976f,0.693910003f,0.688989997f,0.684109986f,0.67930001f,0.674570024f,0.669920027f,0.665369987f,0.66091001f,0.656570017f,0.652329981f,0.648209989f,0.644209981f,0.640339971f,0.636600018f,0.633000016f,0.629540026f,0.62620002f,0.622990012f,0.619899988f,0.616930008f,0.614069998f,0.611310005f,0.608659983f,0.606100023f,0.603630006f,0.601249993f,0.598940015f,0.596700013f,0.594510019f,0.592369974f,0.590269983f,0.588199973f,0.586139977f,0.584100008f,0.582059979f,0.58002001f,0.577989995f,0.57595998f,0.573939979f,0.571929991f,0.569930017f,0.567939997f,0.56595999f,0.56400001f,0.562049985f,0.56013f,0.558239996f,0.556400001f,0.554610014f,0.552879989f,0.551230013f,0.549660027f,0.548179984f,0.546800017f,0.545530021f,0.544369996f,0.543290019f,0.542309999f,0.541400015f,0.540560007f,0.539770007f,0.539040029f,0.538349986f,0.537699997f,0.537069976f,0.536459982f,0.535870016f,0.535300016f,0.534730017f,0.534169972f,0.533609986f,0.533050001f,0.532480001f,0.531899989f,0.531310022f,0.530719995f,0.530149996f,0.529590011f,0.529079974f,0.528609991f,0.528209984f,0.527880013f,0.527639985f,0.527499974f,0.527469993f,0.527549982f,0.527740002f,0.528020024f,0.528400004f,0.52888f,0.529439986f,0.53008002f,0.530799985f,0.531599998f,0.532459974f,0.533370018f,0.534269989f,0.535160005f,0.53599f,0.536729991f,0.537360013f,0.537829995f,0.538119972f,0.538200021f,0.538049996f,0.537689984f,0.537180007f,0.536539972f,0.535830021f,0.535080016f,0.534349978f,0.533659995f,0.533060014f,0.532599986f,0.532299995f,0.532169998f,0.532180011f,0.532329977f,0.532599986f,0.532980025f,0.533460021f,0.534009993f,0.534630001f,0.535300016f,0.536010027f,0.536710024f,0.537370026f,0.537940025f,0.538389981f,0.53865999f,0.538720012f,0.538529992f,0.538030028f,0.537199974f,0.536010027f,0.534510016f,0.532769978f,0.530889988f,0.528919995f,0.526939988f,0.525039971f,0.523280025f,0.521740019f,0.520500004f,0.518639982f,0.517019987f,0.515399992f,0.513779998f,0.512160003f,0.510540009f,0.508920014f,0.507300019f,0.505680025f,0.50405997f,0.502439976f,0.500810027f,0.499190003f,0.497570008f,0.495950013f,0.494329989f,0.492709994f,0.49109f,0.489459991f,0.487839997f,0.486220002f,0.484600008f,0.482980013f,0.481359988f,0.479739994f,0.478130013f,0.476509988f,0.474889994f,0.473269999f,0.471659988f,0.470039994f,0.468419999f,0.466809988f,0.465189993f,0.463580012f,0.461970001f,0.460359991f,0.45875001f,0.457139999f,0.455529988f,0.453920007f,0.452309996f,0.450700015f,0.449099988f,0.447490007f,0.445890009f,0.444290012f,0.442690015f,0.441089988f,0.43948999f,0.437889993f,0.436300009f,0.434700012f,0.433109999f,0.431519985f,0.429930001f,0.428339988f,0.426750004f,0.425159991f,0.423579991f,0.421999991f,0.420410007f,0.418839991f,0.417259991f,0.415679991f,0.414110005f,0.412530005f,0.410959989f,0.409390002f,0.40783f,0.406260014f,0.404700011f,0.403129995f,0.401569992f,0.400020003f,0.398460001f,0.396910012f,0.395359993f,0.393810004f};
static const float REF_CES60[400] = {0.437099993f,0.444819987f,0.452219993f,0.459309995f,0.466140002f,0.472719997f,0.479099989f,0.485300004f,0.491349995f,0.497280002f,0.503120005f,0.508889973f,0.514599979f,0.520240009f,0.525810003f,0.531289995f,0.536689997f,0.541999996f,0.547219992f,0.552339971f,0.55734998f,0.562259972f,0.567059994f,0.571749985f,0.57634002f,0.580829978f,0.585229993f,0.589519978f,0.593720019f,0.597819984f,0.601830006f,0.605750024f,0.609589994f,0.61334002f,0.617020011f,0.620630026f,0.624170005f,0.627650023f,0.631070018f,0.634440005f,0.637769997f,0.641049981f,0.644299984f,0.647499979f,0.650669992f,0.653810024f,0.656920016f,0.660000026f,0.663049996f,0.666079998f,0.669080019f,0.672060013f,0.675019979f,0.677950025f,0.680840015f,0.683700025f,0.686510026f,0.68927002f,0.691969991f,0.694620013f,0.697210014f,0.699729979f,0.702180028f,0.704580009f,0.706910014f,0.709179997f,0.711390018f,0.713549972f,0.715659976f,0.717719972f,0.71973002f,0.721700013f,0.723619998f,0.725489974f,0.727330029f,0.729120016f,0.730880022f,0.73259002f,0.734269977f,0.735909998f,0.737510026f,0.739080012f,0.740610003f,0.742110014f,0.74357003f,0.745000005f,0.746389985f,0.747739971f,0.749059975f,0.750339985f,0.751590014f,0.752799988f,0.753970027f,0.755110025f,0.756219983f,0.757290006f,0.758329988f,0.759350002f,0.760330021f,0.76128f,0.762199998f,0.763100028f,0.763960004f,0.764789999f,0.765590012f,0.766359985f,0.767080009f,0.767759979f,0.768400013f,0.76898998f,0.769529998f,0.770020008f,0.77046001f,0.770839989f,0.77117002f,0.771449983f,0.77165997f,0.771820009f,0.771920025f,0.77196002f,0.771929979f,0.771839976f,0.771690011f,0.77147001f,0.771179974f,0.770820022f,0.770399988f,0.769900024f,0.769330025f,0.768679976f,0.767960012f,0.767159998f,0.766290009f,0.765339971f,0.764330029f,0.76323998f,0.762080014f,0.760860026f,0.759570003f,0.758210003f,0.756799996f,0.755330026f,0.753799975f,0.752219975f,0.75059998f,0.748950005f,0.747269988f,0.74555999f,0.743839979f,0.7421f,0.740360022f,0.738619983f,0.736869991f,0.735119998f,0.733359993f,0.731589973f,0.729789972f,0.727980018f,0.726140022f,0.724269986f,0.722370028f,0.720430017f,0.718469977f,0.716470003f,0.714450002f,0.712409973f,0.710349977f,0.708289981f,0.706210017f,0.704140007f,0.702059984f,0.699989974f,0.697929978f,0.695890009f,0.693870008f,0.691890001f,0.689949989f,0.688049972f,0.686200023f,0.684409976f,0.682680011f,0.681020021f,0.679440022f,0.677929997f,0.676500022f,0.675149977f,0.673870027f,0.672670007f,0.671549976f,0.670509994f,0.669560015f,0.668690026f,0.667900026f,0.667169988f,0.666509986f,0.665889978f,0.665329993f,0.664799988f,0.664300025f,0.663820028f,0.66336f,0.662899971f,0.662450016f,0.661989987f,0.661539972f,0.661069989f,0.660600007f,0.660109997f,0.659609973f,0.659089983f,0.65854001f,0.657970011f,0.657379985f,0.656769991f,0.656159997f,0.655529976f,0.654910028f,0.65429002f,0.653670013f,0.653069973f,0.65249002f,0.651929975f,0.65140003f,0.650900006f,0.650439978f,0.650020003f,0.649649978f,0.64933002f,0.649070024f,0.648869991f,0.648739994f,0.648679972f,0.648689985f,0.648750007f,0.648869991f,0.64903003f,0.649240017f,0.649479985f,0.649739981f,0.650020003f,0.650319993f,0.650629997f,0.650940001f,0.651269972f,0.651619971f,0.651989996f,0.65237999f,0.652809978f,0.653270006f,0.653760016f,0.654299974f,0.654879987f,0.655510008f,0.656170011f,0.656889975f,0.65763998f,0.658439994f,0.659269989f,0.660149992f,0.661059976f,0.662020028f,0.663010001f,0.664049983f,0.665120006f,0.666230023f,0.667379975f,0.668560028f,0.66979003f,0.671060026f,0.672370017f,0.673720002f,0.675109982f,0.676530004f,0.677980006f,0.679440022f,0.680899978f,0.682370007f,0.683820009f,0.685249984f,0.686659992f,0.688030005f,0.689360023f,0.690639973f,0.691869974f,0.693050027f,0.694190025f,0.695280015f,0.696309984f,0.697300017f,0.698230028f,0.699109972f,0.699940026f,0.700709999f,0.70144999f,0.702139974f,0.702799976f,0.703440011f,0.704050004f,0.704639971f,0.705219984f,0.705789983f,0.706359982f,0.706910014f,0.707449973f,0.707949996f,0.708419979f,0.708850026f,0.709209979f,0.709519982f,0.70976001f,0.709909976f,0.709980011f,0.709969997f,0.709900022f,0.709770024f,0.709599972f,0.709399998f,0.709179997f,0.708959997f,0.708729982f,0.708530009f,0.708350003f,0.708209991f,0.708109975f,0.708060026f,0.70806998f,0.708140016f,0.708270013f,0.708490014f,0.708790004f,0.709179997f,0.709670007f,0.71025002f,0.710940003f,0.711730003f,0.712610006f,0.71359998f,0.71469003f,0.71588999f,0.717190027f,0.718590021f,0.720099986f,0.721710026f,0.72341001f,0.725210011f,0.727100015f,0.729059994f,0.731109977f,0.733219981f,0.735409975f,0.737659991f,0.739970028f,0.742380023f,0.744899988f,0.747579992f,0.750429988f,0.753499985f,0.756810009f,0.760389984f,0.764280021f,0.76849997f,0.773060024f,0.777869999f,0.782809973f,0.787779987f,0.792649984f,0.797309995f,0.801639974f,0.805530012f,0.808860004f,0.811529994f,0.813449979f,0.814670026f,0.815310001f,0.815460026f,0.815209985f,0.814670026f,0.813939989f,0.81309998f,0.812269986f,0.811529994f,0.810970008f,0.810590029f,0.810360014f,0.810270011f,0.810299993f,0.81042999f,0.810639977f,0.810899973f,0.811209977f,0.811529994f,0.811850011f,0.812160015f,0.812420011f,0.812629998f,0.812759995f,0.812789977f,0.812699974f,0.812470019f,0.81208998f};
static const float REF_CES61[400] = {0.288729995f,0.292589992f,0.29648f,0.300390005f,0.304340005f,0.308310002f,0.31231001f,0.316339999f,0.3204f,0.324490011f,0.328599989f,0.332740009f,0.336899996f,0.341100007f,0.345310003f,0.349550009f,0.353810012f,0.358099997f,0.362410009f,0.366739988f,0.36976999f,0.374720007f,0.379599988f,0.384409994f,0.389160007f,0.393830001f,0.39842999f,0.402960002f,0.407420009f,0.411799997f,0.416110009f,0.420349985f,0.424510002f,0.428600013f,0.432599992f,0.436540008f,0.440389991f,0.444169998f,0.447860003f,0.451480001f,0.45502001f,0.458469987f,0.461849988f,0.465149999f,0.468369991f,0.471509993f,0.474590003f,0.477589995f,0.48052001f,0.48337999f,0.486180007f,0.48890999f,0.491569996f,0.494159997f,0.496690005f,0.499150008f,0.501540005f,0.503859997f,0.506099999f,0.508279979f,0.510389984f,0.512430012f,0.514400005f,0.516300023f,0.518140018f,0.519919991f,0.521640003f,0.523320019f,0.524940014f,0.526520014f,0.528060019f,0.529550016f,0.531000018f,0.532389998f,0.533720016f,0.534969985f,0.536140025f,0.537230015f,0.538219988f,0.539099991f,0.539870024f,0.540520012f,0.541059971f,0.541509986f,0.541890025f,0.542200029f,0.542479992f,0.54272002f,0.542949975f,0.543190002f,0.543439984f,0.543730021f,0.544070005f,0.54448998f,0.545000017f,0.545629978f,0.546400011f,0.547330022f,0.54843998f,0.54974997f,0.551280022f,0.553040028f,0.555029988f,0.557200015f,0.55953002f,0.561999977f,0.564589977f,0.567250013f,0.569980025f,0.572730005f,0.575489998f,0.578230023f,0.580950022f,0.583620012f,0.586260021f,0.588840008f,0.591359973f,0.593810022f,0.596189976f,0.59849f,0.600700021f,0.602810025f,0.604830027f,0.606750011f,0.608579993f,0.610310018f,0.61194998f,0.613489985f,0.614950001f,0.616299987f,0.617569983f,0.618740022f,0.619790018f,0.620670021f,0.621370018f,0.62184f,0.622049987f,0.621969998f,0.621569991f,0.620809972f,0.619650006f,0.618089974f,0.616129994f,0.613810003f,0.611169994f,0.608240008f,0.605050027f,0.601639986f,0.598029971f,0.594269991f,0.590380013f,0.586390018f,0.582319975f,0.578170002f,0.573949993f,0.569649994f,0.565289974f,0.560869992f,0.556400001f,0.551880002f,0.547309995f,0.542699993f,0.538070023f,0.533399999f,0.528699994f,0.523989975f,0.519259989f,0.514519989f,0.509769976f,0.505020022f,0.500270009f,0.495530009f,0.490810007f,0.486149997f,0.481550008f,0.477039993f,0.472649992f,0.468380004f,0.464269996f,0.460339993f,0.45660001f,0.453079998f,0.44975999f,0.446630001f,0.443670005f,0.440880001f,0.438239992f,0.435739994f,0.43336001f,0.431089997f,0.428920001f,0.426829994f,0.424820006f,0.422899991f,0.421059996f,0.41929999f,0.417620003f,0.41602999f,0.414519995f,0.413089991f,0.411749989f,0.410479993f,0.409299999f,0.408199996f,0.407169998f,0.406210005f,0.405319989f,0.404500008f,0.403750002f,0.403050005f,0.402420014f,0.401840001f,0.40132001f,0.400830001f,0.400389999f,0.399980009f,0.399589986f,0.39921999f,0.398860008f,0.398510009f,0.398149997f,0.397790015f,0.397419989f,0.397060007f,0.396699995f,0.396340013f,0.395990014f,0.395660013f,0.395339996f,0.395049989f,0.39478001f,0.394529998f,0.394320011f,0.394140005f,0.39399001f,0.393869996f,0.393790007f,0.393750012f,0.393759996f,0.39379999f,0.39388001f,0.394010007f,0.394190013f,0.394400001f,0.394659996f,0.394950002f,0.39526999f,0.395630002f,0.396010011f,0.396420002f,0.396860003f,0.397320002f,0.397810012f,0.398319989f,0.398860008f,0.399430007f,0.400040001f,0.400669992f,0.401349992f,0.402060002f,0.402819991f,0.403609991f,0.404439986f,0.405299991f,0.406190008f,0.407099992f,0.40801999f,0.408950001f,0.409889996f,0.410820007f,0.411749989f,0.412660003f,0.413549989f,0.414420009f,0.415250003f,0.416040003f,0.416779995f,0.417459995f,0.418080002f,0.41861999f,0.419090003f,0.419479996f,0.419779986f,0.42001f,0.420170009f,0.42028001f,0.420320004f,0.420320004f,0.42028001f,0.42019999f,0.420080006f,0.419950008f,0.419779986f,0.41960001f,0.419400007f,0.419169992f,0.418929994f,0.418669999f,0.41839999f,0.418099999f,0.417800009f,0.417479992f,0.417149991f,0.416810006f,0.416449994f,0.416070014f,0.415679991f,0.415270001f,0.414840013f,0.414400011f,0.413929999f,0.413439989f,0.412930012f,0.412400007f,0.411850005f,0.411269993f,0.410659999f,0.410030007f,0.409370005f,0.408690006f,0.407979995f,0.407799989f,0.407249987f,0.406709999f,0.406159997f,0.405620009f,0.405070007f,0.404529989f,0.403979987f,0.403439999f,0.402889997f,0.402350008f,0.401800007f,0.401259989f,0.40072f,0.400169998f,0.39963001f,0.399089992f,0.39853999f,0.398000002f,0.397460014f,0.396919996f,0.396380007f,0.395830005f,0.395289987f,0.394749999f,0.394210011f,0.393669993f,0.393130004f,0.392589986f,0.392049998f,0.39151001f,0.390969992f,0.390439987f,0.389899999f,0.389360011f,0.388819993f,0.388280004f,0.38775f,0.387210011f,0.386669993f,0.386139989f,0.385600001f,0.385060012f,0.384530008f,0.38398999f,0.383459985f,0.382919997f,0.382389992f,0.381850004f,0.38132f,0.380789995f,0.380250007f,0.379720002f,0.379189998f,0.37865001f,0.378120005f,0.377590001f,0.377059996f,0.376529992f,0.375990003f,0.375459999f,0.374929994f,0.37439999f,0.373869985f,0.373340011f,0.372810006f,0.372289985f,0.371760011f,0.371230006f,0.370700002f,0.370169997f,0.369639993f,0.369120002f,0.368589997f,0.368059993f,0.367540002f,0.367009997f,0.366490006f,0.365960002f};
static const float REF_CES62[400] = {0.170090005f,0.171900004f,0.173730001f,0.175569996f,0.177430004f,0.179299995f,0.181189999f,0.183090001f,0.185010001f,0.186949998f,0.188899994f,0.190860003f,0.192849994f,0.194839999f,0.19686f,0.198880002f,0.200929999f,0.202989995f,0.205060005f,0.207159996f,0.208489999f,0.210999995f,0.213440001f,0.21582f,0.218150005f,0.220430002f,0.222660005f,0.224869996f,0.227039993f,0.229190007f,0.231330007f,0.233459994f,0.235579997f,0.2377f,0.239840001f,0.24199f,0.244159997f,0.246350005f,0.248579994f,0.250860006f,0.253170013f,0.255540013f,0.257959992f,0.260430008f,0.262950003f,0.265509993f,0.268119991f,0.270770013f,0.273470014f,0.27621001f,0.27899f,0.281800002f,0.284669995f,0.287580013f,0.29054001f,0.293570012f,0.296660006f,0.299809992f,0.303050011f,0.306360006f,0.309760004f,0.313250005f,0.316819996f,0.320470005f,0.324189991f,0.327960014f,0.33179f,0.335669994f,0.339579999f,0.343529999f,0.347490013f,0.351469994f,0.355459988f,0.359439999f,0.363400012f,0.367330015f,0.371230006f,0.375079989f,0.378859997f,0.382580012f,0.386209995f,0.389750004f,0.393189996f,0.396519989f,0.399729997f,0.402810007f,0.40575999f,0.408560008f,0.411199987f,0.413690001f,0.416000009f,0.41813001f,0.420080006f,0.421869993f,0.423480004f,0.424930006f,0.426230013f,0.427370012f,0.428350002f,0.429199994f,0.429899991f,0.430460006f,0.43088001f,0.431160003f,0.431290001f,0.431279987f,0.431120008f,0.430799991f,0.430330008f,0.429699987f,0.428900003f,0.427949995f,0.426840007f,0.425579995f,0.424169987f,0.422619998f,0.420940012f,0.419140011f,0.417210013f,0.415170014f,0.413020015f,0.410769999f,0.40843001f,0.406010002f,0.403530002f,0.401010007f,0.398460001f,0.395880014f,0.39331001f,0.390740007f,0.388200015f,0.385690004f,0.383230001f,0.38082999f,0.378500015f,0.376230001f,0.374060005f,0.371969998f,0.369980007f,0.368110001f,0.366360009f,0.364719987f,0.363200009f,0.361770004f,0.360399991f,0.359079987f,0.35778001f,0.356489986f,0.355190009f,0.353850007f,0.352459997f,0.350989997f,0.349460006f,0.347860008f,0.346210003f,0.344509989f,0.342779994f,0.341010004f,0.339210004f,0.337399989f,0.335579991f,0.33375001f,0.331930012f,0.330130011f,0.328350008f,0.326599985f,0.324900001f,0.323249996f,0.321660012f,0.320140004f,0.318699986f,0.31735f,0.316100001f,0.314960003f,0.313930005f,0.313030005f,0.312269986f,0.311650008f,0.311179996f,0.310880005f,0.310759991f,0.31081f,0.311019987f,0.311360002f,0.311830014f,0.312379986f,0.312999994f,0.313670009f,0.314359993f,0.315050006f,0.315719992f,0.316350013f,0.316920012f,0.317440003f,0.317880005f,0.31825f,0.318540007f,0.31874001f,0.318830013f,0.31882f,0.318699986f,0.318459988f,0.318100005f,0.31764999f,0.317119986f,0.316509992f,0.315829992f,0.315109998f,0.314339995f,0.313549995f,0.312739998f,0.311930001f,0.311120003f,0.310330003f,0.309549987f,0.308809996f,0.308099985f,0.307440013f,0.306820005f,0.306270003f,0.305790007f,0.30539f,0.305059999f,0.304800004f,0.304610014f,0.30449f,0.304430008f,0.304430008f,0.304500014f,0.304619998f,0.304800004f,0.305029988f,0.305299997f,0.305599988f,0.305929989f,0.306270003f,0.306600004f,0.306939989f,0.307249993f,0.307529986f,0.307779998f,0.307980001f,0.30814001f,0.308259994f,0.30836001f,0.308429986f,0.308499992f,0.308560014f,0.308620006f,0.308690012f,0.308770001f,0.308880001f,0.309009999f,0.309179991f,0.309390008f,0.30963999f,0.309949994f,0.310299993f,0.310719997f,0.311199993f,0.311749995f,0.312379986f,0.313089997f,0.31389001f,0.31479001f,0.315789998f,0.316909999f,0.318150014f,0.319519997f,0.321020007f,0.322670013f,0.324470013f,0.326429993f,0.328550011f,0.330839992f,0.333299994f,0.335949987f,0.338789999f,0.341820002f,0.345050007f,0.348479986f,0.352129996f,0.356000006f,0.360080004f,0.364389986f,0.368930012f,0.373699993f,0.378699988f,0.383940011f,0.389420003f,0.395150006f,0.401120007f,0.407350004f,0.413839996f,0.42058f,0.427579999f,0.434850007f,0.442389995f,0.450190008f,0.458270013f,0.466630012f,0.475270003f,0.484160006f,0.493290007f,0.502629995f,0.512160003f,0.521870017f,0.531719983f,0.541700006f,0.551779985f,0.561940014f,0.572170019f,0.582430005f,0.592700005f,0.602970004f,0.613210022f,0.623399973f,0.633520007f,0.643540025f,0.653450012f,0.663209975f,0.671790004f,0.681039989f,0.690159976f,0.699129999f,0.707939982f,0.716610014f,0.725120008f,0.733470023f,0.741649985f,0.749670029f,0.75752002f,0.765200019f,0.772719979f,0.780059993f,0.787230015f,0.794219971f,0.801050007f,0.807699978f,0.814180017f,0.820500016f,0.82664001f,0.832620025f,0.838429987f,0.844070017f,0.849560022f,0.854879975f,0.860050023f,0.865059972f,0.869920015f,0.874629974f,0.879199982f,0.883620024f,0.887899995f,0.892040014f,0.896040022f,0.899909973f,0.903659999f,0.907280028f,0.910769999f,0.91415f,0.917410016f,0.920560002f,0.923600018f,0.926530004f,0.929359972f,0.932079971f,0.934710026f,0.937240005f,0.939689994f,0.942040026f,0.944310009f,0.94648999f,0.948589981f,0.950609982f,0.952560008f,0.954439998f,0.956239998f,0.957979977f,0.959640026f,0.961250007f,0.962800026f,0.964280009f,0.965709984f,0.967079997f,0.968400002f,0.969669998f,0.970889986f,0.972060025f,0.97319001f,0.974269986f,0.975310028f,0.976310015f,0.977259994f,0.978190005f,0.979070008f,0.97992003f,0.980729997f,0.981519997f,0.982270002f};
static const float REF_CES63[400] = {0.0235249996f,0.0242079999f,0.0249090008f,0.0256309994f,0.0263720006f,0.0271349996f,0.027919f,0.0287250001f,0.0295529999f,0.0304049999f,0.0312799998f,0.0321800001f,0.0331050009f,0.0340549983f,0.0350320004f,0.0360359997f,0.0370669998f,0.0381270014f,0.0392160006f,0.0403340012f,0.0395569988f,0.0416399986f,0.0436029993f,0.0454480015f,0.0471800007f,0.0488010012f,0.0503159985f,0.051727999f,0.0530400015f,0.0542559996f,0.0553789996f,0.0564140007f,0.0573620014f,0.0582289994f,0.0590160005f,0.0597289987f,0.0603699982f,0.060943f,0.0614520013f,0.0618989989f,0.0622889996f,0.0626259968f,0.062913999f,0.063161999f,0.0633750036f,0.0635600016f,0.0637239963f,0.0638720021f,0.0640119985f,0.0641499981f,0.0642919987f,0.064443998f,0.0646080002f,0.064786002f,0.0649780035f,0.065185003f,0.0654089972f,0.0656509995f,0.0659120008f,0.0661929995f,0.0664950013f,0.0668200031f,0.0671679974f,0.0675380006f,0.0679320022f,0.0683500022f,0.068791002f,0.0692569986f,0.0697470009f,0.070262f,0.0708009973f,0.071367003f,0.0719600022f,0.0725840032f,0.073239997f,0.0739319995f,0.0746619999f,0.0754320025f,0.0762460008f,0.0771050006f,0.078011997f,0.0789680034f,0.0799689963f,0.0810080022f,0.0820790008f,0.0831760019f,0.084292002f,0.0854210034f,0.0865579993f,0.0876950026f,0.0888269991f,0.0899479985f,0.0910549983f,0.0921460018f,0.0932189971f,0.0942709967f,0.0952999964f,0.0963039994f,0.0972800031f,0.0982270017f,0.0991420001f,0.100019999f,0.10086f,0.10165f,0.102389999f,0.10306f,0.103660002f,0.104189999f,0.10464f,0.104989998f,0.105250001f,0.105410002f,0.105460003f,0.105420001f,0.105290003f,0.105080001f,0.104780003f,0.104400001f,0.103950001f,0.103430003f,0.102849998f,0.102200001f,0.101499997f,0.100749999f,0.0999379978f,0.0990799963f,0.0981749967f,0.0972250029f,0.0962330028f,0.0952019989f,0.0941350013f,0.0930339992f,0.0919030011f,0.0907460004f,0.0895690024f,0.0883760005f,0.0871699974f,0.0859579965f,0.0847420022f,0.0835269988f,0.0823180005f,0.0811190009f,0.07993f,0.078753002f,0.0775889978f,0.0764369965f,0.0753000006f,0.0741769969f,0.0730689988f,0.071976997f,0.0709019974f,0.069844f,0.0688079968f,0.0677959993f,0.0668110028f,0.0658589974f,0.0649409965f,0.0640610009f,0.0632240027f,0.0624319986f,0.0616879985f,0.0609970018f,0.0603590012f,0.0597760007f,0.0592469983f,0.0587750003f,0.0583590008f,0.0580010004f,0.0577020012f,0.0574619994f,0.0572820008f,0.0571639985f,0.0571079999f,0.0571140014f,0.0571839996f,0.0573190004f,0.057519f,0.0577839985f,0.0581169985f,0.0585159995f,0.0589849986f,0.0595210008f,0.0601219982f,0.0607820004f,0.0614980012f,0.0622650012f,0.0630770028f,0.0639310032f,0.0648220032f,0.0657450035f,0.0666960031f,0.0676689968f,0.0686599985f,0.0696619973f,0.0706700012f,0.0716769993f,0.0726789981f,0.0736690015f,0.0746409968f,0.0755899996f,0.0765099972f,0.0773949996f,0.0782399997f,0.0790409967f,0.0797929987f,0.0804919973f,0.0811320022f,0.0817100033f,0.082220003f,0.0826580003f,0.0830190033f,0.0833000019f,0.0835020021f,0.0836279988f,0.0836810023f,0.083664f,0.0835789964f,0.0834290013f,0.0832170025f,0.0829460025f,0.0826179981f,0.0822369978f,0.0818080008f,0.0813340023f,0.0808219984f,0.0802759975f,0.0797000006f,0.0791010037f,0.0784839988f,0.0778520033f,0.077211f,0.0765649974f,0.0759169981f,0.075267002f,0.0746179968f,0.0739699975f,0.0733250007f,0.0726839975f,0.0720489994f,0.0714209974f,0.0708009973f,0.0701920018f,0.0695929974f,0.0690070018f,0.0684359968f,0.0678799972f,0.0673419982f,0.0668229982f,0.066324003f,0.065847002f,0.0653939992f,0.0649650022f,0.0645579994f,0.0641729981f,0.0638059974f,0.0634569973f,0.0631219968f,0.0627989992f,0.0624880008f,0.0621850006f,0.0618890002f,0.0615979992f,0.0613150001f,0.0610449985f,0.0607899986f,0.0605529994f,0.0603399985f,0.0601530001f,0.0599960014f,0.0598720014f,0.0597859994f,0.0597390011f,0.0597340018f,0.0597679988f,0.0598409995f,0.0599539988f,0.0601049997f,0.0602950007f,0.0605220012f,0.0607860014f,0.0610879995f,0.0614250004f,0.0617979988f,0.0622050017f,0.0626439974f,0.0631150007f,0.0636150017f,0.0641449988f,0.0647019967f,0.0652860031f,0.0658940002f,0.0665279999f,0.0671880022f,0.0678780004f,0.0686009973f,0.0693600029f,0.0701579973f,0.0709989965f,0.0718849972f,0.0728200004f,0.0738060027f,0.0748450011f,0.0759349987f,0.0770699978f,0.0782470033f,0.0794600025f,0.0807060003f,0.0819799975f,0.083277002f,0.084592998f,0.0859230012f,0.0872640014f,0.0886100009f,0.0899569988f,0.0913000032f,0.0926359966f,0.0939600021f,0.0952669978f,0.0965519994f,0.0978119969f,0.0990419984f,0.100919999f,0.102389999f,0.103890002f,0.105410002f,0.106940001f,0.108499996f,0.110079996f,0.111670002f,0.113289997f,0.114919998f,0.116580002f,0.118260004f,0.119949996f,0.12167f,0.123410001f,0.125170007f,0.126959994f,0.128759995f,0.130590007f,0.132440001f,0.134310007f,0.136199996f,0.138119996f,0.140049994f,0.142020002f,0.143999994f,0.146009997f,0.148029998f,0.150089994f,0.152160004f,0.154259995f,0.156389996f,0.158529997f,0.160699993f,0.162900001f,0.165120006f,0.167359993f,0.169630006f,0.171920002f,0.174239993f,0.176579997f,0.178939998f,0.181329995f,0.183750004f,0.186189994f,0.188649997f,0.191139996f,0.193660006f,0.196199998f,0.198760003f,0.201350003f,0.20397f,0.206609994f,0.20927f,0.211970001f,0.214680001f,0.217419997f,0.220190004f,0.222979993f,0.225799993f,0.228640005f,0.231509998f,0.234400004f,0.237310007f,0.240260005f,0.243220001f,0.246209994f,0.249229997f,0.252270013f,0.25534001f,0.258430004f,0.261539996f,0.264679998f,0.267839998f,0.271019995f,0.274230003f,0.277469993f,0.280719995f,0.284000009f};
static const float REF_CES64[400] = {0.169890001f,0.172279999f,0.174700007f,0.177139997f,0.179609999f,0.182109997f,0.184630007f,0.187189996f,0.18976f,0.192369998f,0.194999993f,0.197659999f,0.200350001f,0.203060001f,0.205799997f,0.208570004f,0.211370006f,0.214190006f,0.217040002f,0.219919994f,0.22326f,0.225500003f,0.228300005f,0.231539994f,0.235119998f,0.238930002f,0.242840007f,0.246759996f,0.250569999f,0.254170001f,0.257429987f,0.260280013f,0.26275f,0.264889985f,0.266759992f,0.268420011f,0.269919991f,0.271319985f,0.272680014f,0.274040014f,0.275480002f,0.277029991f,0.27869001f,0.28046f,0.282319993f,0.284269989f,0.28628999f,0.288370013f,0.290499985f,0.292670012f,0.294880003f,0.297109991f,0.299369991f,0.301660001f,0.303979993f,0.306349993f,0.308770001f,0.311250001f,0.31378001f,0.316390008f,0.319059998f,0.321810007f,0.32464999f,0.327580005f,0.330619991f,0.333770007f,0.337040007f,0.340440005f,0.343970001f,0.347660005f,0.351500005f,0.355500013f,0.359670013f,0.363990009f,0.368470013f,0.373100013f,0.377880007f,0.382809997f,0.387870014f,0.393079996f,0.398420006f,0.403890014f,0.409469992f,0.415149987f,0.420890003f,0.426679999f,0.432500005f,0.438329995f,0.444139987f,0.449919999f,0.455650002f,0.461299986f,0.466850013f,0.472290009f,0.477580011f,0.482710004f,0.487650007f,0.492390007f,0.496899992f,0.501150012f,0.505140007f,0.508830011f,0.512229979f,0.515330017f,0.518140018f,0.520640016f,0.522840023f,0.524730027f,0.526319981f,0.527610004f,0.52858001f,0.529250026f,0.529609978f,0.529680014f,0.529460013f,0.528949976f,0.528180003f,0.527140021f,0.525839984f,0.524290025f,0.522499979f,0.520470023f,0.518209994f,0.515739977f,0.51305002f,0.510160029f,0.507070005f,0.503799975f,0.500349998f,0.49673f,0.492949992f,0.48901999f,0.484930009f,0.48071f,0.476350009f,0.471850008f,0.467229992f,0.462500006f,0.457639992f,0.452679992f,0.447609991f,0.442440003f,0.437189996f,0.431849986f,0.426429987f,0.420949996f,0.415410012f,0.40981999f,0.40417999f,0.398510009f,0.392809987f,0.387089998f,0.381350011f,0.375589997f,0.369819999f,0.364030004f,0.358220011f,0.352400005f,0.346569985f,0.340719998f,0.334870011f,0.32901001f,0.323139995f,0.317270011f,0.31141001f,0.305559993f,0.299730003f,0.29392001f,0.288139999f,0.282380015f,0.276670009f,0.270999998f,0.265379995f,0.259829998f,0.254339993f,0.248930007f,0.243619993f,0.238399997f,0.233290002f,0.228300005f,0.223440006f,0.218710005f,0.214120001f,0.209659994f,0.205339998f,0.20115f,0.197099999f,0.193179995f,0.189390004f,0.185729995f,0.182209998f,0.178819999f,0.175549999f,0.172399998f,0.169359997f,0.166429996f,0.163599998f,0.160850003f,0.158189997f,0.155609995f,0.153099999f,0.150649995f,0.148269996f,0.145940006f,0.143669993f,0.141450003f,0.139269993f,0.137140006f,0.135049999f,0.133000001f,0.130989999f,0.129010007f,0.127059996f,0.125149995f,0.123290002f,0.121469997f,0.1197f,0.117990002f,0.116329998f,0.11473f,0.113200001f,0.111740001f,0.110339999f,0.109010004f,0.107749999f,0.106569998f,0.105449997f,0.10441f,0.103440002f,0.102540001f,0.101709999f,0.100960001f,0.100270003f,0.0996539965f,0.0990940034f,0.0985909998f,0.0981390029f,0.0977329984f,0.0973690003f,0.0970430002f,0.0967499986f,0.0964860022f,0.0962470025f,0.0960329995f,0.0958390012f,0.0956650004f,0.0955080017f,0.0953650028f,0.0952339992f,0.0951130018f,0.0949999988f,0.0948920026f,0.0947910026f,0.094697997f,0.0946149975f,0.0945430025f,0.094483003f,0.0944380015f,0.094407998f,0.0943949968f,0.0944000036f,0.0944250003f,0.0944719985f,0.0945409983f,0.0946350023f,0.0947529972f,0.0948980004f,0.0950710028f,0.095273003f,0.0955059975f,0.0957700014f,0.0960669965f,0.0963940024f,0.0967499986f,0.097130999f,0.0975349993f,0.0979589969f,0.0984010026f,0.0988589972f,0.0993290022f,0.0998099968f,0.100299999f,0.100790001f,0.101290002f,0.101800002f,0.102310002f,0.102810003f,0.103320003f,0.103830002f,0.104340002f,0.104840003f,0.105339997f,0.105829999f,0.106310003f,0.106789999f,0.107249998f,0.107699998f,0.108130001f,0.108539999f,0.108939998f,0.10932f,0.109679997f,0.110009998f,0.110310003f,0.110590003f,0.11084f,0.111060001f,0.11124f,0.111400001f,0.111510001f,0.111589998f,0.11163f,0.111639999f,0.111610003f,0.111570001f,0.111510001f,0.111429997f,0.111359999f,0.111280002f,0.111210003f,0.111149997f,0.11107f,0.111000001f,0.110930003f,0.110859998f,0.110789999f,0.110720001f,0.110650003f,0.110579997f,0.110509999f,0.110440001f,0.110370003f,0.110299997f,0.110229999f,0.110160001f,0.110079996f,0.110009998f,0.10994f,0.109870002f,0.109800003f,0.109729998f,0.10966f,0.109590001f,0.109520003f,0.109449998f,0.109379999f,0.109310001f,0.109240003f,0.109169997f,0.109099999f,0.109030001f,0.108960003f,0.108889997f,0.108829997f,0.108759999f,0.108690001f,0.108620003f,0.108549997f,0.108479999f,0.108410001f,0.108340003f,0.108269997f,0.108199999f,0.108130001f,0.108060002f,0.107989997f,0.107919998f,0.10785f,0.107790001f,0.107720003f,0.107649997f,0.107579999f,0.10751f,0.107440002f,0.107369997f,0.107299998f,0.10723f,0.107170001f,0.107100002f,0.107029997f,0.106959999f,0.10689f,0.106820002f,0.106749997f,0.106689997f,0.106619999f,0.106550001f,0.106480002f,0.106409997f,0.106339999f,0.106279999f,0.106210001f,0.106140003f,0.106069997f,0.105999999f,0.105939999f,0.105870001f,0.105800003f,0.105729997f,0.105659999f};
static const float REF_CES65[400] = {0.00601600017f,0.00652900012f,0.00708599994f,0.00768900011f,0.00834400021f,0.00905300025f,0.00982300006f,0.0106570004f,0.0115609998f,0.0125399996f,0.0136019997f,0.0147519996f,0.0159980003f,0.0173480008f,0.018809f,0.0203900002f,0.022101f,0.0239530001f,0.0259550009f,0.0281199999f,0.0294889994f,0.0321189985f,0.0351359993f,0.0384990014f,0.0421629995f,0.0460879989f,0.0502290018f,0.0545450002f,0.0589930005f,0.0635289997f,0.0681129992f,0.0727000013f,0.077248998f,0.0817169994f,0.0860600024f,0.0902369991f,0.0942049995f,0.0979219973f,0.101340003f,0.104429998f,0.107129999f,0.10943f,0.11135f,0.112949997f,0.114249997f,0.115330003f,0.116209999f,0.116939999f,0.117579997f,0.118170001f,0.118749999f,0.11936f,0.120010003f,0.120679997f,0.121370003f,0.12207f,0.122780003f,0.12348f,0.124179997f,0.124849997f,0.125499994f,0.126120001f,0.126719996f,0.127309993f,0.127900004f,0.1285f,0.129120007f,0.129779994f,0.130480006f,0.131229997f,0.132060006f,0.132949993f,0.133929998f,0.134979993f,0.136109993f,0.137329996f,0.138630003f,0.140009999f,0.141479999f,0.143030003f,0.144669995f,0.146390006f,0.148200005f,0.150099993f,0.152089998f,0.154170007f,0.156320006f,0.158570006f,0.160899997f,0.163310006f,0.165810004f,0.168390006f,0.17103f,0.173700005f,0.176369995f,0.179020002f,0.18163f,0.184159994f,0.186580002f,0.188889995f,0.191029996f,0.193000004f,0.194780007f,0.196349993f,0.197689995f,0.198799998f,0.199650005f,0.200240001f,0.200550005f,0.200560004f,0.200269997f,0.199650005f,0.198740005f,0.197549999f,0.196099997f,0.194429994f,0.192540005f,0.190469995f,0.188240007f,0.185870007f,0.183390006f,0.180810004f,0.178159997f,0.175439999f,0.172670007f,0.169870004f,0.167050004f,0.164230004f,0.161420003f,0.158629999f,0.155890003f,0.153190002f,0.150560006f,0.148000002f,0.145520002f,0.143130004f,0.140829995f,0.138640001f,0.136549994f,0.13459f,0.132750005f,0.131050006f,0.129470006f,0.128000006f,0.126640007f,0.125369996f,0.124179997f,0.123070002f,0.12201f,0.121009998f,0.120039999f,0.119099997f,0.118189998f,0.117289998f,0.116400003f,0.11552f,0.114639997f,0.113760002f,0.112860002f,0.111939996f,0.11101f,0.110040002f,0.109059997f,0.108070001f,0.107069999f,0.106090002f,0.105120003f,0.104170002f,0.103260003f,0.102389999f,0.101570003f,0.100819997f,0.100129999f,0.0995210037f,0.0989969969f,0.0985660031f,0.098236002f,0.0980169997f,0.0979150012f,0.0979399979f,0.0980980024f,0.0983949974f,0.0988179967f,0.0993509963f,0.0999760032f,0.100680001f,0.101439998f,0.102240004f,0.103069998f,0.103919998f,0.10475f,0.105559997f,0.106339999f,0.10706f,0.107699998f,0.108269997f,0.108730003f,0.109070003f,0.109269999f,0.109329998f,0.109219998f,0.108929999f,0.10847f,0.107840002f,0.107050002f,0.106119998f,0.105039999f,0.103830002f,0.102499999f,0.101049997f,0.0994890034f,0.0978299975f,0.0960849971f,0.0942680016f,0.0923930034f,0.0904740021f,0.0885270014f,0.0865629986f,0.0845990032f,0.0826470032f,0.0807230026f,0.0788369998f,0.0769919977f,0.0751850009f,0.0734170005f,0.0716859996f,0.0699900016f,0.068328999f,0.0667020008f,0.0651080012f,0.0635460019f,0.0620130002f,0.0605099984f,0.0590340011f,0.0575839989f,0.0561590008f,0.054756999f,0.0533760004f,0.0520149991f,0.0506730005f,0.0493469983f,0.048037f,0.0467430018f,0.0454640016f,0.0441999994f,0.042950999f,0.0417179987f,0.0405000001f,0.0392969996f,0.0381090008f,0.036936f,0.035778001f,0.0346370004f,0.0335140005f,0.0324110016f,0.031330999f,0.0302729998f,0.0292409994f,0.0282349996f,0.0272579994f,0.0263119992f,0.0253970008f,0.0245149992f,0.0236649998f,0.0228480007f,0.0220650006f,0.0213159993f,0.0206010006f,0.0199209992f,0.0192760006f,0.0186659992f,0.0180929992f,0.0175529998f,0.0170460008f,0.0165710002f,0.0161259994f,0.0157089997f,0.015319f,0.014955f,0.0146150002f,0.0142980004f,0.014002f,0.0137250004f,0.0134680001f,0.0132290004f,0.0130070001f,0.0128009999f,0.0126090003f,0.0124319997f,0.012267f,0.0121130003f,0.0119709997f,0.0118389996f,0.011717f,0.0116050001f,0.0115019996f,0.0114080003f,0.0113239996f,0.011248f,0.0111800004f,0.0111199999f,0.0110689998f,0.0110240001f,0.0109879998f,0.0109580001f,0.0109350001f,0.0109200003f,0.010911f,0.0109080002f,0.0109120002f,0.0109219998f,0.0109379999f,0.0109590003f,0.0109869996f,0.0110189999f,0.0110569997f,0.0110999998f,0.0111480001f,0.0112009998f,0.0112579996f,0.0113190003f,0.0112699997f,0.0113000004f,0.0113289999f,0.0113589996f,0.0113890003f,0.0114179999f,0.0114479996f,0.0114780003f,0.0115080001f,0.0115390001f,0.0115689998f,0.0115989996f,0.0116299996f,0.0116600003f,0.0116910003f,0.0117210001f,0.0117520001f,0.0117830001f,0.0118129998f,0.0118439998f,0.0118749999f,0.0119070001f,0.0119380001f,0.0119690001f,0.0120000001f,0.0120320003f,0.0120630004f,0.0120949997f,0.0121269999f,0.0121579999f,0.0121900002f,0.0122220004f,0.0122539997f,0.012286f,0.0123180002f,0.0123509998f,0.012383f,0.0124150002f,0.0124479998f,0.01248f,0.0125129996f,0.0125460001f,0.0125789996f,0.0126120001f,0.0126449997f,0.0126780001f,0.0127109997f,0.0127440002f,0.0127769997f,0.0128110005f,0.012844f,0.0128779998f,0.0129119996f,0.0129450001f,0.0129789999f,0.0130129997f,0.0130470004f,0.0130810002f,0.0131160002f,0.01315f,0.0131839998f,0.0132189998f,0.0132529996f,0.0132879997f,0.0133229997f,0.0133579997f,0.0133929998f,0.0134279998f,0.0134629998f,0.0134979999f,0.0135329999f,0.0135690002f,0.0136040002f,0.0136399996f,0.0136749996f,0.0137109999f,0.0137470001f,0.0137830004f,0.0138189998f};
static const float REF_CES66[400] = {0.0996309966f,0.100769997f,0.101920001f,0.103079997f,0.104259998f,0.105439998f,0.106640004f,0.10785f,0.109070003f,0.110299997f,0.111550003f,0.112800002f,0.114069998f,0.115359999f,0.11665f,0.117959999f,0.119280003f,0.120609999f,0.121959999f,0.123319998f,0.124899998f,0.125949994f,0.127269998f,0.128810003f,0.130500004f,0.132310003f,0.134179994f,0.136069998f,0.137909994f,0.139679998f,0.141299993f,0.142749995f,0.144040003f,0.145199999f,0.146239996f,0.147210002f,0.14813f,0.149020001f,0.149910003f,0.150830001f,0.151800007f,0.152850002f,0.153970003f,0.155180007f,0.156450003f,0.157800004f,0.159209996f,0.160689995f,0.162239999f,0.163839996f,0.1655f,0.167219996f,0.168990001f,0.170819998f,0.172710001f,0.174669996f,0.176679999f,0.178760007f,0.180910006f,0.183119997f,0.185399994f,0.187749997f,0.190180004f,0.19269f,0.195289999f,0.197980002f,0.200760007f,0.203649998f,0.206650004f,0.209769994f,0.213f,0.216360003f,0.219840005f,0.223460004f,0.227200001f,0.231069997f,0.235070005f,0.239199996f,0.243469998f,0.247869998f,0.252400011f,0.257070005f,0.261839986f,0.266710013f,0.271629989f,0.276600003f,0.281569988f,0.286529988f,0.291460007f,0.296319991f,0.301099986f,0.30577001f,0.310299993f,0.314689994f,0.318919986f,0.322950006f,0.326790005f,0.330390006f,0.333759993f,0.336870015f,0.339700013f,0.342240006f,0.344469994f,0.34641999f,0.348069996f,0.349429995f,0.350499988f,0.351280004f,0.351770014f,0.351980001f,0.351900011f,0.351539999f,0.350899994f,0.34999001f,0.348809987f,0.347369999f,0.345679998f,0.343739986f,0.341560006f,0.339150012f,0.336499989f,0.333629996f,0.330549985f,0.327270001f,0.323799998f,0.320160002f,0.316359997f,0.312409997f,0.308329999f,0.304120004f,0.299800009f,0.295379996f,0.290879995f,0.28628999f,0.281639993f,0.276919991f,0.27215001f,0.267329991f,0.262479991f,0.257600009f,0.252700001f,0.247789994f,0.242880002f,0.237979993f,0.23308f,0.228200004f,0.223350003f,0.218520001f,0.213730007f,0.208989993f,0.204300001f,0.199660003f,0.195089996f,0.190569997f,0.186120003f,0.181740001f,0.177430004f,0.173179999f,0.169009998f,0.164920002f,0.160899997f,0.156959996f,0.153109998f,0.149330005f,0.145630002f,0.142020002f,0.138490006f,0.13504f,0.131679997f,0.128399998f,0.125200003f,0.122089997f,0.119060002f,0.116130002f,0.113289997f,0.110540003f,0.107890002f,0.105339997f,0.102880001f,0.100539997f,0.0983000025f,0.0961690024f,0.0941440016f,0.0922200009f,0.0903939977f,0.0886640027f,0.0870240033f,0.0854709968f,0.0840020031f,0.0826129988f,0.0812999979f,0.0800599977f,0.0788879991f,0.0777809992f,0.0767349973f,0.0757450014f,0.0748070031f,0.0739179999f,0.0730729997f,0.0722680017f,0.0715000033f,0.0707639977f,0.0700590014f,0.069381997f,0.0687320009f,0.0681070015f,0.0675060004f,0.0669260025f,0.0663670003f,0.0658250004f,0.0653000027f,0.064790003f,0.0642950013f,0.0638149977f,0.0633499995f,0.0629009977f,0.0624679998f,0.0620509982f,0.0616509989f,0.0612669997f,0.060899999f,0.0605500005f,0.0602170005f,0.0599020012f,0.0596049987f,0.0593249984f,0.0590629987f,0.0588200018f,0.0585939996f,0.0583879985f,0.0582000017f,0.0580310002f,0.0578790009f,0.0577430017f,0.0576209985f,0.0575120002f,0.057413999f,0.0573250018f,0.0572439991f,0.0571699999f,0.0571000017f,0.0570340008f,0.0569709986f,0.0569109991f,0.0568550006f,0.0568020009f,0.0567540005f,0.056708999f,0.0566679984f,0.056632001f,0.0566000007f,0.0565720014f,0.0565490015f,0.0565299988f,0.0565150008f,0.056504f,0.0564970002f,0.0564929992f,0.0564920008f,0.0564949997f,0.056499999f,0.0565080009f,0.0565200001f,0.0565360002f,0.0565560013f,0.0565810017f,0.0566119999f,0.0566480011f,0.0566920005f,0.0567420013f,0.0568000004f,0.0568660013f,0.0569389984f,0.0570200011f,0.0571050011f,0.0571959987f,0.0572919995f,0.0573900007f,0.0574919991f,0.0575949997f,0.0577000007f,0.0578050017f,0.057909999f,0.0580150001f,0.0581180006f,0.0582210012f,0.0583220012f,0.0584199987f,0.0585170016f,0.0586099997f,0.058699999f,0.0587860011f,0.0588690005f,0.058947999f,0.0590239987f,0.0590960011f,0.0591639988f,0.0592279993f,0.0592890009f,0.0593460016f,0.0593999997f,0.0594500005f,0.0594960004f,0.0595379993f,0.059576001f,0.0596089996f,0.059638001f,0.059661001f,0.0596799999f,0.0596930012f,0.059700001f,0.0597020015f,0.0596980006f,0.0596910007f,0.0596799999f,0.0596669987f,0.059652999f,0.059638001f,0.0596240014f,0.0596110001f,0.0595999993f,0.0595850013f,0.0595720001f,0.0595589988f,0.0595449992f,0.0595320016f,0.0595190004f,0.0595059991f,0.0594919994f,0.0594789982f,0.0594660006f,0.0594529994f,0.0594389997f,0.0594259985f,0.0594130009f,0.0593999997f,0.059386f,0.0593729988f,0.0593600012f,0.059347f,0.0593330003f,0.0593199991f,0.0593070015f,0.0592940003f,0.0592800006f,0.0592669994f,0.0592540018f,0.0592410006f,0.0592270009f,0.0592139997f,0.0592009984f,0.0591880009f,0.0591749996f,0.059161f,0.0591479987f,0.0591350012f,0.0591219999f,0.0591089986f,0.059094999f,0.0590820014f,0.0590690002f,0.0590559989f,0.0590430014f,0.0590300001f,0.0590160005f,0.0590029992f,0.0589900017f,0.0589770004f,0.0589639992f,0.0589510016f,0.0589369982f,0.0589240007f,0.0589109994f,0.0588979982f,0.0588850006f,0.0588719994f,0.0588579997f,0.0588449985f,0.0588320009f,0.0588189997f,0.0588059984f,0.0587930009f,0.0587799996f,0.0587669984f,0.0587529987f,0.0587400012f,0.0587269999f,0.0587139986f,0.0587010011f,0.0586879998f,0.0586749986f,0.058662001f,0.0586489998f,0.0586350001f,0.0586219989f,0.0586090013f,0.0585960001f,0.0585829988f,0.0585700013f,0.058557f};
static const float REF_CES67[400] = {0.109269999f,0.110919997f,0.112599999f,0.114289999f,0.116010003f,0.117749996f,0.119520001f,0.121299997f,0.123109996f,0.124949999f,0.126800001f,0.128680006f,0.130590007f,0.132510006f,0.134460002f,0.136439994f,0.138439998f,0.140469998f,0.142509997f,0.144590005f,0.147f,0.148629993f,0.150659993f,0.153019994f,0.155630007f,0.158419997f,0.161300004f,0.164189994f,0.167030007f,0.169719994f,0.172199994f,0.174400002f,0.176349998f,0.178069994f,0.179619998f,0.181020007f,0.182319999f,0.183540002f,0.184740007f,0.185949996f,0.187199995f,0.188529998f,0.189940006f,0.191440001f,0.193010002f,0.194670007f,0.19641f,0.198239997f,0.200139999f,0.202130005f,0.2042f,0.206349999f,0.208580002f,0.210879996f,0.213269994f,0.215729997f,0.218260005f,0.220860004f,0.223539993f,0.226290002f,0.229100004f,0.231979996f,0.234940007f,0.237979993f,0.241099998f,0.244310006f,0.24763f,0.251049995f,0.254579991f,0.258230001f,0.261999995f,0.265899986f,0.269939989f,0.274100006f,0.27838999f,0.282810003f,0.287360013f,0.292030007f,0.296829998f,0.301750004f,0.306800008f,0.311969995f,0.317229986f,0.322549999f,0.32791999f,0.333299994f,0.338669986f,0.343980014f,0.349229991f,0.354380012f,0.359400004f,0.364270002f,0.368970007f,0.373479992f,0.377799988f,0.38192001f,0.385809988f,0.389470011f,0.392879993f,0.396019995f,0.398900002f,0.401490003f,0.403780013f,0.405770004f,0.407440007f,0.408780009f,0.409790009f,0.410459995f,0.410769999f,0.410719991f,0.410299987f,0.409500003f,0.408340007f,0.406819999f,0.404980004f,0.402819991f,0.400359988f,0.397630006f,0.394630015f,0.391380012f,0.387899995f,0.384209991f,0.380320013f,0.376230001f,0.371969998f,0.367540002f,0.362960011f,0.358229995f,0.353370011f,0.348390013f,0.343300015f,0.33811f,0.332839996f,0.327490002f,0.322079986f,0.316610008f,0.31110999f,0.305570006f,0.300020009f,0.294459999f,0.288899988f,0.283360004f,0.277839988f,0.27234f,0.266880006f,0.261449993f,0.256069988f,0.250739992f,0.245470002f,0.240250006f,0.235100001f,0.230020002f,0.225009993f,0.220080003f,0.215220004f,0.210429996f,0.205720007f,0.201079994f,0.196510002f,0.192019999f,0.187600002f,0.183259994f,0.178990006f,0.174799994f,0.17069f,0.166659996f,0.162699997f,0.158830002f,0.155039996f,0.151329994f,0.147699997f,0.144160002f,0.140699998f,0.137329996f,0.134069994f,0.130899996f,0.127829999f,0.124880001f,0.122029997f,0.119309999f,0.116700001f,0.114220001f,0.11186f,0.109609999f,0.107479997f,0.105449997f,0.103529997f,0.101709999f,0.0999829993f,0.0983479992f,0.0967999995f,0.0953340009f,0.0939470008f,0.0926330015f,0.0913870037f,0.0902059972f,0.0890839994f,0.0880170017f,0.0870010033f,0.086029999f,0.0851000026f,0.0842069983f,0.0833479986f,0.0825200006f,0.0817210004f,0.080949001f,0.080201f,0.0794740021f,0.0787670016f,0.0780759975f,0.0773999989f,0.0767360032f,0.0760840029f,0.0754460022f,0.0748210028f,0.0742110014f,0.073615998f,0.0730369985f,0.0724740028f,0.0719280019f,0.0714000016f,0.0708910003f,0.070400998f,0.0699340031f,0.0694890022f,0.0690699965f,0.0686760023f,0.0683109984f,0.0679759979f,0.0676719993f,0.067400001f,0.0671619996f,0.0669559985f,0.0667779967f,0.0666270033f,0.0664979964f,0.0663890019f,0.0662980005f,0.0662209988f,0.0661559999f,0.0661000013f,0.0660500005f,0.066004999f,0.0659630001f,0.0659250021f,0.0658890009f,0.0658529997f,0.0658179969f,0.0657809973f,0.0657420009f,0.065700002f,0.0656540021f,0.0656069964f,0.0655589998f,0.0655139983f,0.0654719993f,0.0654369965f,0.0654100031f,0.0653939992f,0.0653899983f,0.0653999969f,0.0654269978f,0.0654689968f,0.0655269995f,0.0655990019f,0.0656849965f,0.0657839999f,0.065895997f,0.066019997f,0.0661550015f,0.0662999973f,0.0664549991f,0.066618003f,0.0667880028f,0.0669620037f,0.0671380013f,0.0673160031f,0.0674929991f,0.067667f,0.0678360015f,0.0680000037f,0.0681559965f,0.0683029965f,0.0684410036f,0.0685689971f,0.0686869994f,0.0687939972f,0.0688889995f,0.0689729974f,0.069043003f,0.0691f,0.0691429973f,0.0691739991f,0.0691929981f,0.069201f,0.0692000017f,0.0691919997f,0.0691760033f,0.0691550002f,0.0691289976f,0.0691f,0.0690689981f,0.0690350011f,0.0689970031f,0.0689560026f,0.0689110011f,0.0688610002f,0.0688050017f,0.0687439963f,0.0686749965f,0.068599999f,0.0685169995f,0.0684290007f,0.0683379993f,0.0682459995f,0.0681549981f,0.0680679977f,0.0679859966f,0.0679130033f,0.0678500012f,0.0678000003f,0.0677220002f,0.0676549971f,0.0675880015f,0.0675209984f,0.0674540028f,0.0673879981f,0.0673210025f,0.0672539994f,0.0671880022f,0.0671209991f,0.0670550019f,0.0669889972f,0.0669220015f,0.0668559968f,0.0667899996f,0.0667240024f,0.0666579977f,0.0665920004f,0.0665260032f,0.0664599985f,0.0663940012f,0.0663279966f,0.0662629977f,0.0661970004f,0.0661310032f,0.0660659969f,0.0659999996f,0.0659350008f,0.0658700019f,0.0658039972f,0.0657389984f,0.0656739995f,0.0656090006f,0.0655440018f,0.0654790029f,0.0654139966f,0.0653489977f,0.0652839988f,0.0652199984f,0.0651549995f,0.0650900006f,0.0650260001f,0.0649610013f,0.0648970008f,0.0648330003f,0.0647680014f,0.0647040009f,0.0646400005f,0.064576f,0.0645119995f,0.0644470006f,0.0643839985f,0.064319998f,0.0642559975f,0.0641919971f,0.0641279966f,0.0640650019f,0.0640010014f,0.0639370009f,0.0638739988f,0.0638109967f,0.0637470037f,0.0636840016f,0.0636209995f,0.063556999f,0.0634939969f,0.0634310022f,0.0633680001f,0.063304998f,0.0632420033f,0.0631790012f,0.0631169975f,0.0630540028f,0.0629910007f,0.062928997f,0.0628660023f,0.0628039986f,0.0627409965f,0.0626790002f};
static const float REF_CES68[400] = {0.221489996f,0.224329993f,0.227190003f,0.230079994f,0.232999995f,0.235939994f,0.238910004f,0.241909996f,0.244929999f,0.24797f,0.251040012f,0.25413999f,0.257259995f,0.260399997f,0.263570011f,0.266759992f,0.269980013f,0.273229986f,0.276490003f,0.279790014f,0.282449991f,0.286089987f,0.289700001f,0.293280005f,0.296829998f,0.300359994f,0.303860009f,0.30735001f,0.31081f,0.314260006f,0.317690015f,0.32111001f,0.324510008f,0.327910006f,0.331290007f,0.334670007f,0.338039994f,0.341399997f,0.344770014f,0.348129988f,0.351489991f,0.354860008f,0.358220011f,0.361580014f,0.36491999f,0.368259996f,0.371569991f,0.374859989f,0.378129989f,0.381370008f,0.384570003f,0.387739986f,0.390859991f,0.393940002f,0.396979988f,0.399969995f,0.402909994f,0.405800015f,0.408639997f,0.411419988f,0.41415f,0.416810006f,0.419420004f,0.42197001f,0.424459994f,0.426899999f,0.429289997f,0.431629986f,0.433919996f,0.436159998f,0.438360006f,0.440510005f,0.442600012f,0.444620013f,0.446550012f,0.44837001f,0.450069994f,0.45164001f,0.453049988f,0.454299986f,0.455359995f,0.456239998f,0.456930012f,0.457459986f,0.457839996f,0.458099991f,0.458240002f,0.458290011f,0.45826f,0.458169997f,0.458039999f,0.457890004f,0.457729995f,0.457590014f,0.457489997f,0.457450002f,0.457500011f,0.457650006f,0.457940012f,0.45837f,0.45897001f,0.45976001f,0.460720003f,0.461820006f,0.463039994f,0.464349985f,0.465730011f,0.467159986f,0.468600005f,0.470039994f,0.471439987f,0.472790003f,0.474059999f,0.47525999f,0.476350009f,0.477319986f,0.478170007f,0.478879988f,0.479420006f,0.479799986f,0.479990005f,0.479990005f,0.479790002f,0.479420006f,0.478870004f,0.478159994f,0.477310002f,0.476310015f,0.47518f,0.473930001f,0.472570002f,0.471109986f,0.469520003f,0.467779994f,0.465880007f,0.463779986f,0.461479992f,0.458939999f,0.456140012f,0.453070015f,0.449699998f,0.446009994f,0.442019999f,0.437770009f,0.433279991f,0.428559989f,0.42366001f,0.418599993f,0.413399994f,0.408100009f,0.402709991f,0.39726001f,0.391770005f,0.386260003f,0.380730003f,0.375200003f,0.369690001f,0.36421001f,0.358770013f,0.353399992f,0.348089993f,0.342869997f,0.337740004f,0.332679987f,0.327699989f,0.322789997f,0.317939997f,0.313160002f,0.308429986f,0.303759992f,0.299140006f,0.294569999f,0.290060014f,0.285629988f,0.281280011f,0.277040005f,0.272920012f,0.268940002f,0.265100002f,0.261420012f,0.257930011f,0.254619986f,0.251489997f,0.248539999f,0.245759994f,0.243129998f,0.24064f,0.238289997f,0.236070007f,0.233960003f,0.231959999f,0.230059996f,0.228259996f,0.226559997f,0.224969998f,0.22349f,0.222120002f,0.220870003f,0.219740003f,0.218730003f,0.217840001f,0.217079997f,0.216450006f,0.215920001f,0.215509996f,0.215189993f,0.214969993f,0.214829996f,0.214770004f,0.214780003f,0.214849994f,0.214980006f,0.215159997f,0.215379998f,0.215639994f,0.21593f,0.216250002f,0.216580003f,0.216930002f,0.21728f,0.217629999f,0.217979997f,0.218329996f,0.218659997f,0.218999997f,0.219339997f,0.219669998f,0.220009997f,0.220349997f,0.220689997f,0.221039996f,0.221389994f,0.221740007f,0.222100005f,0.222460002f,0.22281f,0.223159999f,0.22349f,0.223820001f,0.224140003f,0.224439994f,0.224720001f,0.224979997f,0.225240007f,0.225480005f,0.225710005f,0.225940004f,0.226160005f,0.226370007f,0.226589993f,0.226809993f,0.227029994f,0.227259994f,0.227500007f,0.227770001f,0.228070006f,0.228400007f,0.228780001f,0.229200006f,0.229670003f,0.230210006f,0.230810001f,0.231470004f,0.232179999f,0.232930005f,0.233730003f,0.234559998f,0.235410005f,0.236279994f,0.237159997f,0.23804f,0.238920003f,0.239779994f,0.240630001f,0.241449997f,0.242239997f,0.242980003f,0.243670002f,0.244299993f,0.244859993f,0.245350003f,0.245759994f,0.246099994f,0.246360004f,0.246560007f,0.246690005f,0.246779993f,0.246810004f,0.246810004f,0.246769994f,0.246690005f,0.246600002f,0.246480003f,0.246329993f,0.246169999f,0.245989993f,0.245790005f,0.245570004f,0.245340005f,0.245100006f,0.244839996f,0.244570002f,0.244289994f,0.244000003f,0.243699998f,0.243379995f,0.243049994f,0.242699996f,0.24233f,0.241940007f,0.24154f,0.241119996f,0.240679994f,0.240209997f,0.239720002f,0.239209995f,0.238680005f,0.238120005f,0.237540007f,0.236929998f,0.236289993f,0.236169994f,0.235699996f,0.23522f,0.234750003f,0.234280005f,0.233799994f,0.233329996f,0.232859999f,0.232390001f,0.231920004f,0.231450006f,0.230979994f,0.230519995f,0.230049998f,0.22958f,0.229120001f,0.228650004f,0.228190005f,0.227720007f,0.227259994f,0.226799995f,0.226339996f,0.225869998f,0.225409999f,0.224950001f,0.2245f,0.224040002f,0.223580003f,0.223120004f,0.222670004f,0.222210005f,0.221750006f,0.221300006f,0.220850006f,0.220390007f,0.219940007f,0.219490007f,0.219040006f,0.218590006f,0.218140006f,0.217690006f,0.217240006f,0.216790006f,0.216340005f,0.215900004f,0.215450004f,0.215010002f,0.214560002f,0.214120001f,0.213679999f,0.213229999f,0.212789997f,0.212349996f,0.211909994f,0.211469993f,0.211030006f,0.210590005f,0.210160002f,0.209720001f,0.209279999f,0.208849996f,0.208409995f,0.207980007f,0.207540005f,0.207110003f,0.20668f,0.206249997f,0.205809996f,0.205379993f,0.204950005f,0.204520002f,0.204099998f,0.203669995f,0.203240007f,0.202820003f,0.20239f,0.201959997f,0.201539993f,0.201120004f};
static const float REF_CES69[400] = {0.132249996f,0.133640006f,0.135049999f,0.136460006f,0.137889996f,0.13933f,0.140780002f,0.142250001f,0.143720001f,0.145209998f,0.146720007f,0.148230001f,0.149759993f,0.151309997f,0.152860001f,0.154430002f,0.156010002f,0.157609999f,0.159209996f,0.160840005f,0.162200004f,0.163980007f,0.165749997f,0.167500004f,0.169249997f,0.170980006f,0.172710001f,0.174439996f,0.176159993f,0.177890003f,0.179609999f,0.181339994f,0.183070004f,0.184809998f,0.186560005f,0.188309997f,0.190090001f,0.191870004f,0.193670005f,0.195490003f,0.197329998f,0.199200004f,0.201079994f,0.202969998f,0.204879999f,0.20679f,0.208700001f,0.210610002f,0.212520003f,0.214410007f,0.216299996f,0.218160003f,0.219999999f,0.221829996f,0.223629996f,0.225400001f,0.227149993f,0.228860006f,0.230550006f,0.232199997f,0.233809993f,0.235389993f,0.236929998f,0.238440007f,0.239920005f,0.241359994f,0.242770001f,0.244149998f,0.245509997f,0.246830001f,0.248140007f,0.249410003f,0.250649989f,0.251839995f,0.252950013f,0.253989995f,0.254920006f,0.25575f,0.256449997f,0.257010013f,0.25740999f,0.257649988f,0.257730007f,0.257679999f,0.257510006f,0.257239997f,0.256879985f,0.256460011f,0.255980015f,0.255470008f,0.254940003f,0.254409999f,0.253899992f,0.253430009f,0.253010005f,0.25266999f,0.252429992f,0.252299994f,0.252299994f,0.252449989f,0.252770007f,0.253280014f,0.25395f,0.254779994f,0.255730003f,0.256790012f,0.257930011f,0.259149998f,0.260399997f,0.261689991f,0.262980014f,0.26425001f,0.265500009f,0.266719997f,0.267890006f,0.269019991f,0.27008f,0.271079987f,0.272009999f,0.272839993f,0.273589998f,0.274230003f,0.274780005f,0.27522999f,0.275590003f,0.275869995f,0.276059985f,0.276169986f,0.27621001f,0.276169986f,0.276059985f,0.275889993f,0.275629997f,0.275260001f,0.274769992f,0.274129987f,0.273330003f,0.272329986f,0.271129996f,0.269699991f,0.268020004f,0.266079992f,0.263900012f,0.261489987f,0.258879989f,0.256089985f,0.253149986f,0.250079989f,0.246900007f,0.243630007f,0.240309998f,0.236939996f,0.233539999f,0.230120003f,0.226699993f,0.223269999f,0.219840005f,0.216429994f,0.213049993f,0.209710002f,0.206400007f,0.203150004f,0.199949995f,0.196799994f,0.193690002f,0.190640002f,0.187629998f,0.184660003f,0.181730002f,0.178849995f,0.175999999f,0.173199996f,0.170440003f,0.167750001f,0.165130004f,0.162599996f,0.160170004f,0.157849997f,0.155650005f,0.153589994f,0.151679993f,0.14993f,0.148340002f,0.146880001f,0.145569995f,0.144380003f,0.143309996f,0.142350003f,0.141489998f,0.140719995f,0.140039995f,0.13944f,0.138919994f,0.138510004f,0.1382f,0.138019994f,0.137970001f,0.138060004f,0.13831f,0.138720006f,0.139320001f,0.140100002f,0.141049996f,0.142169997f,0.143419996f,0.144810006f,0.146310002f,0.147909999f,0.149580002f,0.151329994f,0.153129995f,0.154960006f,0.156819999f,0.158690006f,0.160559997f,0.162420005f,0.16426f,0.166069999f,0.167830005f,0.169530004f,0.171159998f,0.172710001f,0.17419f,0.175600007f,0.176929995f,0.178200006f,0.179409996f,0.180570006f,0.181669995f,0.182720006f,0.183730006f,0.184699997f,0.185629994f,0.186509997f,0.187360004f,0.188160002f,0.188930005f,0.189649999f,0.190329999f,0.190970004f,0.19156f,0.192120001f,0.192629993f,0.193110004f,0.193550006f,0.193959996f,0.194340006f,0.194690004f,0.195010006f,0.195309997f,0.195580006f,0.195840001f,0.196079999f,0.196319997f,0.196569994f,0.196820006f,0.197080001f,0.197380006f,0.197699994f,0.198060006f,0.198469996f,0.198929995f,0.199430004f,0.199980006f,0.200560004f,0.201169997f,0.201800004f,0.202450007f,0.203109995f,0.203779995f,0.204439998f,0.2051f,0.205750003f,0.206379995f,0.206980005f,0.207560003f,0.208100006f,0.2086f,0.20905f,0.209460005f,0.209800005f,0.210089996f,0.210319996f,0.210500002f,0.21063f,0.210710004f,0.210759997f,0.210769996f,0.21074f,0.210700005f,0.21063f,0.210539997f,0.210439995f,0.210319996f,0.210179999f,0.210030004f,0.209869996f,0.209690005f,0.2095f,0.209299996f,0.209079996f,0.208859995f,0.208619997f,0.20837f,0.208110005f,0.207839996f,0.207560003f,0.207259998f,0.206959993f,0.206630006f,0.206300005f,0.205950007f,0.205589995f,0.205219999f,0.204830006f,0.20442f,0.203999996f,0.203569993f,0.203119993f,0.202659994f,0.202179998f,0.202020004f,0.201639995f,0.201269999f,0.200890005f,0.200509995f,0.200130001f,0.199760005f,0.199379995f,0.199000001f,0.198630005f,0.198249996f,0.19788f,0.197510004f,0.197129995f,0.196759999f,0.196390003f,0.196020007f,0.195649996f,0.195280001f,0.194910005f,0.194539994f,0.194169998f,0.193800002f,0.193430007f,0.193069994f,0.192699999f,0.192330003f,0.191970006f,0.191599995f,0.191239998f,0.190880001f,0.190510005f,0.190149993f,0.189789996f,0.18942f,0.189060003f,0.188700005f,0.188339993f,0.187979996f,0.187619999f,0.187260002f,0.186910003f,0.186550006f,0.186189994f,0.185839996f,0.185479999f,0.185120001f,0.184770003f,0.184410006f,0.184060007f,0.183709994f,0.183349997f,0.182999998f,0.18265f,0.182300001f,0.181950003f,0.181600004f,0.181250006f,0.180899993f,0.180549994f,0.180199996f,0.179849997f,0.179509997f,0.179159999f,0.178819999f,0.178470001f,0.178120002f,0.177780002f,0.177440003f,0.177090004f,0.176750004f,0.176410004f,0.176070005f,0.175720006f,0.175380006f,0.175040007f,0.174700007f,0.174360007f,0.174030006f};
static const float REF_CES70[400] = {0.317939997f,0.32348001f,0.329059988f,0.334679991f,0.340359986f,0.346080005f,0.351850003f,0.357659996f,0.363519996f,0.369410008f,0.375340015f,0.381309986f,0.387320012f,0.393359989f,0.399439991f,0.405539989f,0.411680013f,0.417840004f,0.424030006f,0.430240005f,0.435369998f,0.442129999f,0.448810011f,0.455430001f,0.461970001f,0.46845001f,0.474860013f,0.481209993f,0.487489998f,0.493710011f,0.499879986f,0.505990028f,0.512040019f,0.518040001f,0.523989975f,0.529900014f,0.535749972f,0.541559994f,0.547320008f,0.553040028f,0.558719993f,0.564360023f,0.569959998f,0.575510025f,0.58099997f,0.586440027f,0.591820002f,0.597130001f,0.602370024f,0.607529998f,0.612609982f,0.617609978f,0.62252003f,0.627340019f,0.632070005f,0.636720002f,0.641269982f,0.645739973f,0.650110006f,0.654389977f,0.658569992f,0.662660003f,0.666660011f,0.670560002f,0.674350023f,0.678049982f,0.681640029f,0.68513f,0.688510001f,0.691789985f,0.694949985f,0.698000014f,0.700929999f,0.703719974f,0.70638001f,0.708899975f,0.711260021f,0.713450015f,0.715470016f,0.717310011f,0.718959987f,0.720409989f,0.721669972f,0.722750008f,0.723640025f,0.724380016f,0.724940002f,0.725359976f,0.725629985f,0.725759983f,0.725759983f,0.725629985f,0.725390017f,0.725019991f,0.724529982f,0.723919988f,0.723200023f,0.722360015f,0.721409976f,0.720340014f,0.71916002f,0.717869997f,0.716470003f,0.714959979f,0.713339984f,0.711610019f,0.70976001f,0.707799971f,0.705720007f,0.703540027f,0.70122999f,0.698819995f,0.696290016f,0.693639994f,0.690880001f,0.688000023f,0.685010016f,0.681900024f,0.678669989f,0.675329983f,0.671869993f,0.668290019f,0.664600015f,0.66079998f,0.656889975f,0.652880013f,0.648779988f,0.644580007f,0.640299976f,0.635919988f,0.631470025f,0.626940012f,0.62233001f,0.617630005f,0.612839997f,0.607959986f,0.602980018f,0.597899973f,0.592710018f,0.587419987f,0.582009971f,0.576479971f,0.570850015f,0.565129995f,0.559319973f,0.553430021f,0.547479987f,0.541480005f,0.535440028f,0.52937001f,0.523270011f,0.517170012f,0.511059999f,0.504970014f,0.498879999f,0.492830008f,0.486799985f,0.48082f,0.47488001f,0.469009995f,0.463200003f,0.457459986f,0.451790005f,0.446200013f,0.440679997f,0.435229987f,0.429850012f,0.424540013f,0.419290006f,0.414110005f,0.408989996f,0.403939992f,0.398959994f,0.394069999f,0.389270008f,0.384579986f,0.379999995f,0.375539988f,0.371230006f,0.367049992f,0.363029987f,0.359180003f,0.355479985f,0.351940006f,0.348540008f,0.345279992f,0.342150003f,0.339139998f,0.336250007f,0.333460003f,0.330779999f,0.328189999f,0.325700015f,0.323309988f,0.321009994f,0.318800002f,0.316700011f,0.314689994f,0.312770009f,0.310959995f,0.309240013f,0.307630002f,0.306100011f,0.304670006f,0.303330004f,0.302080005f,0.300909996f,0.299809992f,0.298799992f,0.297850013f,0.296979994f,0.296169996f,0.295430005f,0.294750005f,0.294120014f,0.293550014f,0.293029994f,0.292560011f,0.292140007f,0.291759998f,0.291420013f,0.291110009f,0.290850013f,0.290619999f,0.290419996f,0.290270001f,0.290140003f,0.29005f,0.289990008f,0.289970011f,0.289970011f,0.290010005f,0.290080011f,0.290170014f,0.290280014f,0.290410012f,0.290549994f,0.290710002f,0.290870011f,0.291040003f,0.291209996f,0.291379988f,0.29155001f,0.291709989f,0.291880012f,0.292059988f,0.292239994f,0.292430013f,0.292629987f,0.292840004f,0.293069988f,0.293300003f,0.293559998f,0.293839991f,0.294149995f,0.294499993f,0.294880003f,0.295300007f,0.295769989f,0.296299994f,0.296880007f,0.297520012f,0.298209995f,0.29896f,0.299739987f,0.300570011f,0.301420003f,0.302300006f,0.303189993f,0.304100007f,0.305020005f,0.305929989f,0.306840003f,0.307729989f,0.308589995f,0.309410006f,0.310180008f,0.310909986f,0.311560005f,0.312139988f,0.312640011f,0.313050002f,0.313380003f,0.313630015f,0.313800007f,0.313919991f,0.31397f,0.313980013f,0.313939989f,0.313879997f,0.31378001f,0.313659996f,0.313520014f,0.313360006f,0.313190013f,0.31299001f,0.312790006f,0.312570006f,0.312330008f,0.312079996f,0.31182f,0.311549991f,0.311260015f,0.310970008f,0.310660005f,0.310339987f,0.310009986f,0.309659988f,0.309300005f,0.308919996f,0.308519989f,0.308109999f,0.307680011f,0.307240009f,0.306769997f,0.306290001f,0.305790007f,0.305269986f,0.304720014f,0.304159999f,0.303579986f,0.303409994f,0.302960008f,0.30250001f,0.302049994f,0.301600009f,0.30114001f,0.300689995f,0.30024001f,0.299780011f,0.299329996f,0.298880011f,0.298429996f,0.297980011f,0.297529995f,0.29708001f,0.296629995f,0.29618001f,0.295729995f,0.295289993f,0.294840008f,0.294389993f,0.293940008f,0.293500006f,0.293049991f,0.292600006f,0.292160004f,0.291709989f,0.291269988f,0.290829986f,0.290380001f,0.28994f,0.289499998f,0.289050013f,0.288610011f,0.28817001f,0.287730008f,0.287290007f,0.286850005f,0.286410004f,0.285970002f,0.285530001f,0.285089999f,0.284649998f,0.284209996f,0.283769995f,0.283340007f,0.282900006f,0.282460004f,0.282029986f,0.281590015f,0.281159997f,0.280719995f,0.280290008f,0.279850006f,0.279419988f,0.27899f,0.278549999f,0.278120011f,0.277689993f,0.277260005f,0.276829988f,0.2764f,0.275970012f,0.275539994f,0.275110006f,0.274679989f,0.274250001f,0.273820013f,0.273389995f,0.272960007f,0.272540003f,0.272109985f,0.271679997f,0.271259993f,0.270830005f,0.270410001f,0.269980013f,0.269560009f,0.269140005f};
static const float REF_CES71[400] = {0.0364580005f,0.0370520018f,0.0376560017f,0.0382689983f,0.0388909988f,0.0395230018f,0.0401649997f,0.040817f,0.041478999f,0.0421510004f,0.0428339988f,0.0435269997f,0.0442310013f,0.044946f,0.0456719995f,0.0464089997f,0.0471570008f,0.0479170009f,0.0486890003f,0.0494720004f,0.0504000001f,0.050999999f,0.0517610013f,0.0526669994f,0.0537020005f,0.0548500009f,0.0560929999f,0.0574159995f,0.0588029996f,0.0602359995f,0.0617000014f,0.0631819963f,0.0646879971f,0.0662249997f,0.0678019971f,0.0694290027f,0.0711129978f,0.0728629977f,0.0746890008f,0.0765980035f,0.0785999969f,0.080701001f,0.0828979984f,0.085187003f,0.0875630006f,0.0900219977f,0.0925600007f,0.0951709971f,0.0978510007f,0.100599997f,0.103399999f,0.106260002f,0.109169997f,0.112120003f,0.115120001f,0.118139997f,0.121200003f,0.124279998f,0.127379999f,0.130480006f,0.133599997f,0.136720002f,0.139840007f,0.142969996f,0.146109998f,0.149250001f,0.152410001f,0.155579999f,0.158769995f,0.161970004f,0.165199995f,0.168449998f,0.171700001f,0.174960002f,0.178200006f,0.18141f,0.184589997f,0.187720001f,0.190789998f,0.193790004f,0.196700007f,0.199509993f,0.202219993f,0.204799995f,0.20724f,0.209529996f,0.211649999f,0.213589996f,0.215340003f,0.216879994f,0.218199998f,0.219290003f,0.220139995f,0.22078f,0.221190006f,0.221399993f,0.221399993f,0.221210003f,0.220819995f,0.220249996f,0.219500005f,0.218579993f,0.217490003f,0.216250002f,0.214860007f,0.213330001f,0.211679995f,0.209889993f,0.208000004f,0.206f,0.203899994f,0.201710001f,0.199430004f,0.197060004f,0.19461f,0.192059994f,0.189429998f,0.186700001f,0.18389f,0.180989996f,0.178000003f,0.174919993f,0.171770006f,0.16855f,0.165279999f,0.161970004f,0.158629999f,0.155269995f,0.151899993f,0.148540005f,0.145199999f,0.141890004f,0.138620004f,0.135399997f,0.132239997f,0.129160002f,0.126169994f,0.123280004f,0.12049f,0.117830001f,0.1153f,0.112910002f,0.110660002f,0.108539999f,0.106550001f,0.104670003f,0.102909997f,0.101259999f,0.0997140035f,0.0982619971f,0.0969000012f,0.0956209973f,0.0944089964f,0.093245998f,0.0921149999f,0.0909980014f,0.0898760036f,0.0887340009f,0.0875520036f,0.0863130018f,0.0850000009f,0.0835990012f,0.0821100026f,0.0805400014f,0.0788929984f,0.0771759972f,0.0753920004f,0.0735469982f,0.0716470033f,0.0696960017f,0.0676999986f,0.0656649992f,0.0636010021f,0.0615179986f,0.0594270006f,0.0573379993f,0.0552619994f,0.0532100014f,0.0511909984f,0.049217999f,0.0472999997f,0.0454489999f,0.0436789989f,0.0420049988f,0.0404440016f,0.0390110016f,0.0377210006f,0.0365890004f,0.0356319994f,0.0348629989f,0.0342999995f,0.0339539982f,0.0338289998f,0.0339250006f,0.0342420004f,0.0347799994f,0.0355399996f,0.036522001f,0.037726f,0.0391510017f,0.0408000015f,0.0426630005f,0.0446989983f,0.0468569994f,0.0490880013f,0.0513419993f,0.0535680018f,0.0557169989f,0.0577390008f,0.0595830008f,0.0612000003f,0.0625490025f,0.0636330023f,0.0644619986f,0.0650470033f,0.0654020011f,0.0655359998f,0.0654610023f,0.0651889965f,0.0647320002f,0.0640999973f,0.0633080006f,0.0623780005f,0.0613359995f,0.0602059998f,0.059014f,0.0577850007f,0.0565439984f,0.0553160012f,0.0541259982f,0.0529999994f,0.051957f,0.0509990007f,0.0501220003f,0.0493209995f,0.0485929996f,0.0479330011f,0.0473380014f,0.0468030013f,0.0463249981f,0.0458999984f,0.045522999f,0.0451919995f,0.0449009985f,0.0446479991f,0.0444279984f,0.0442380011f,0.0440739989f,0.0439319983f,0.0438090004f,0.0436999984f,0.0436029993f,0.0435159989f,0.0434379987f,0.043370001f,0.0433089994f,0.0432559997f,0.0432090014f,0.0431680009f,0.0431319997f,0.0430999994f,0.0430729985f,0.0430569984f,0.0430569984f,0.0430819988f,0.0431360006f,0.0432280004f,0.0433639996f,0.0435499996f,0.0437930003f,0.0441000015f,0.0444770008f,0.0449309982f,0.0454670005f,0.0460910015f,0.0468080007f,0.0476239994f,0.0485460013f,0.0495789982f,0.0507280007f,0.0520000011f,0.0533979982f,0.0549190007f,0.0565560013f,0.0583040006f,0.060157001f,0.0621099994f,0.0641560033f,0.066290997f,0.0685070008f,0.0707999989f,0.0731630027f,0.0755890012f,0.0780690014f,0.0805969983f,0.0831630006f,0.0857599974f,0.0883809999f,0.091016002f,0.0936580002f,0.0962999985f,0.098935999f,0.101580001f,0.104230002f,0.106909998f,0.109630004f,0.112400003f,0.115230002f,0.118129998f,0.121119998f,0.124200001f,0.127379999f,0.130610004f,0.133839995f,0.136999995f,0.140039995f,0.142900005f,0.145520002f,0.147850007f,0.149829999f,0.1514f,0.15399f,0.156220004f,0.158470005f,0.160740003f,0.163049996f,0.165380001f,0.167730004f,0.170120001f,0.172519997f,0.174960002f,0.177430004f,0.179920003f,0.182429999f,0.184980005f,0.187549993f,0.190149993f,0.192780003f,0.195439994f,0.198119998f,0.200829998f,0.203569993f,0.206330001f,0.209130004f,0.211950004f,0.2148f,0.217669994f,0.220579997f,0.223509997f,0.226469994f,0.229460001f,0.232470006f,0.235510007f,0.238580003f,0.241679996f,0.244800001f,0.247960001f,0.251130015f,0.254339993f,0.257569999f,0.260829985f,0.264120013f,0.267430007f,0.270770013f,0.274129987f,0.277520001f,0.280939996f,0.284379989f,0.287849993f,0.291339993f,0.294860005f,0.298400015f,0.301959991f,0.305550009f,0.309170008f,0.31279999f,0.316460013f,0.320149988f,0.323850006f,0.327580005f,0.331330001f,0.335099995f,0.338889986f,0.342709988f,0.346540004f,0.350400001f,0.354270011f,0.358159989f,0.362069994f,0.365999997f,0.369949996f,0.37391001f,0.377900004f,0.381900012f,0.385910004f,0.389939994f,0.39399001f,0.39805001f,0.402119994f,0.406210005f};
static const float REF_CES72[400] = {0.37755999f,0.380670011f,0.383789986f,0.386909992f,0.390049994f,0.393189996f,0.396349996f,0.399509996f,0.40268001f,0.405860007f,0.409049988f,0.412239999f,0.415439993f,0.418650001f,0.421869993f,0.425089985f,0.428319991f,0.43156001f,0.434799999f,0.438039988f,0.440219998f,0.443919986f,0.447569996f,0.451160014f,0.454690009f,0.458149999f,0.461549997f,0.46487999f,0.468129992f,0.471320003f,0.474429995f,0.477459997f,0.48041001f,0.483280003f,0.486070007f,0.488770008f,0.491380006f,0.493910015f,0.496340007f,0.498670012f,0.500909984f,0.503050029f,0.505100012f,0.507059991f,0.508930027f,0.510730028f,0.51244998f,0.514110029f,0.515709996f,0.517250001f,0.518739998f,0.520179987f,0.521579981f,0.522949994f,0.524269998f,0.525560021f,0.526820004f,0.528060019f,0.52925998f,0.530449986f,0.531620026f,0.532769978f,0.533900023f,0.53500998f,0.53609997f,0.537159979f,0.538200021f,0.539210021f,0.540180027f,0.541119993f,0.542029977f,0.542890012f,0.543720007f,0.544510007f,0.545270026f,0.545979977f,0.54667002f,0.547309995f,0.547919989f,0.548489988f,0.549030006f,0.549539983f,0.550010026f,0.550450027f,0.550849974f,0.55122f,0.551549971f,0.551850021f,0.552110016f,0.552339971f,0.552540004f,0.552699983f,0.552820027f,0.552919984f,0.552969992f,0.552999973f,0.552990019f,0.552950025f,0.552879989f,0.552779973f,0.552640021f,0.552470028f,0.552269995f,0.552039981f,0.551779985f,0.551490009f,0.551169991f,0.550809979f,0.550419986f,0.550000012f,0.549549997f,0.549059987f,0.54855001f,0.547999978f,0.547420025f,0.546809971f,0.546159983f,0.545480013f,0.544780016f,0.544030011f,0.543259978f,0.542460024f,0.541620016f,0.540759981f,0.53986001f,0.538940012f,0.53798002f,0.537f,0.53599f,0.534950018f,0.533890009f,0.532790005f,0.531669974f,0.530520022f,0.529330015f,0.52809f,0.526820004f,0.5255f,0.524119973f,0.522700012f,0.521210015f,0.51967001f,0.518060029f,0.516409993f,0.514720023f,0.512979984f,0.511210024f,0.509410024f,0.507589996f,0.50575f,0.503899992f,0.502040029f,0.500180006f,0.498320013f,0.496459991f,0.494610012f,0.49278f,0.490960002f,0.489170015f,0.487399995f,0.485659987f,0.483949989f,0.482279986f,0.48063001f,0.479009986f,0.477420002f,0.475849986f,0.474310011f,0.472779989f,0.471280009f,0.469790012f,0.468320012f,0.46687001f,0.465429991f,0.464020014f,0.462630004f,0.461259991f,0.459919989f,0.458609998f,0.457329988f,0.456090003f,0.454869986f,0.453689992f,0.45254001f,0.451429993f,0.450340003f,0.449290007f,0.448260009f,0.447270006f,0.446310014f,0.445369989f,0.444460005f,0.443580002f,0.44273001f,0.441920012f,0.44115001f,0.440420002f,0.439729989f,0.439090014f,0.438490003f,0.437949985f,0.437460005f,0.437020004f,0.436630011f,0.436280012f,0.435979992f,0.435710013f,0.435479999f,0.435279995f,0.435110003f,0.434960008f,0.434839994f,0.434740007f,0.434670001f,0.434619993f,0.434599996f,0.434610009f,0.434650004f,0.43472001f,0.434819996f,0.434960008f,0.43513f,0.435330003f,0.435559988f,0.435820013f,0.436100006f,0.436399996f,0.43671f,0.437050015f,0.43739f,0.437739998f,0.43810001f,0.438470006f,0.438829988f,0.43919f,0.439550012f,0.439900011f,0.440230012f,0.440549999f,0.440860003f,0.441139996f,0.441410005f,0.441650003f,0.441870004f,0.442079991f,0.442270011f,0.442449987f,0.442620009f,0.442790002f,0.442939997f,0.443100005f,0.443260014f,0.443419993f,0.443589985f,0.443769991f,0.443969995f,0.444189996f,0.444429994f,0.444709986f,0.44501999f,0.445369989f,0.445760012f,0.44619f,0.446660012f,0.447149992f,0.447670013f,0.448220015f,0.44878f,0.449349999f,0.449930012f,0.450520009f,0.451110005f,0.451689988f,0.452250004f,0.452800006f,0.453319997f,0.453799993f,0.454239994f,0.454640001f,0.454979986f,0.455260009f,0.455469996f,0.455630004f,0.455720007f,0.455769986f,0.455769986f,0.455740005f,0.455669999f,0.45559001f,0.455480009f,0.455359995f,0.455240011f,0.455119997f,0.45499f,0.454869986f,0.454750001f,0.454640001f,0.454540014f,0.454459995f,0.454389989f,0.454329997f,0.454299986f,0.454290003f,0.454299986f,0.454320014f,0.454360008f,0.454409987f,0.454479992f,0.454560012f,0.454650015f,0.454750001f,0.454849988f,0.454970002f,0.455089986f,0.45521f,0.455339998f,0.455469996f,0.455599993f,0.455729991f,0.455859989f,0.455980003f,0.456050009f,0.456169993f,0.456279993f,0.456400007f,0.456519991f,0.456629992f,0.456750005f,0.456860006f,0.45697999f,0.45708999f,0.457210004f,0.457320005f,0.457439989f,0.457560003f,0.457670003f,0.457789987f,0.457899988f,0.458020002f,0.458130002f,0.458249986f,0.458359987f,0.45848f,0.458600014f,0.458710015f,0.458829999f,0.458939999f,0.459060013f,0.459170014f,0.459289998f,0.459410012f,0.459520012f,0.459639996f,0.459749997f,0.459870011f,0.459980011f,0.460099995f,0.460220009f,0.460330009f,0.460449994f,0.460559994f,0.460680008f,0.460790008f,0.460909992f,0.461030006f,0.461140007f,0.461259991f,0.461369991f,0.461490005f,0.461600006f,0.46171999f,0.461840004f,0.461950004f,0.462069988f,0.462179989f,0.462300003f,0.462410003f,0.462529987f,0.462650001f,0.462760001f,0.462879986f,0.462989986f,0.46311f,0.463230014f,0.463340014f,0.463459998f,0.463569999f,0.463690013f,0.463800013f,0.463919997f,0.464040011f,0.464150012f,0.464269996f,0.464379996f,0.46450001f,0.464619994f,0.464729995f,0.464850008f,0.464960009f,0.465079993f};
static const float REF_CES73[400] = {0.161599994f,0.165179998f,0.168830007f,0.172539994f,0.176310003f,0.180160001f,0.184060007f,0.188030005f,0.192070007f,0.196170002f,0.200340003f,0.204569995f,0.208869994f,0.213239998f,0.217669994f,0.222169995f,0.226730004f,0.231360003f,0.236059994f,0.240820006f,0.239979997f,0.247840002f,0.255080014f,0.26177001f,0.267949998f,0.273699999f,0.279080003f,0.284139991f,0.28896001f,0.293579996f,0.298070014f,0.302489996f,0.306910008f,0.311379999f,0.31595999f,0.320719987f,0.325720012f,0.331010014f,0.336670011f,0.342739999f,0.349299997f,0.356379986f,0.363970011f,0.372009993f,0.380459994f,0.389270008f,0.398420006f,0.407840014f,0.417510003f,0.427359998f,0.437370002f,0.447479993f,0.457619995f,0.467709988f,0.477679998f,0.48743999f,0.496930003f,0.506049991f,0.51473999f,0.522920012f,0.530510008f,0.537440002f,0.543739974f,0.549419999f,0.554509997f,0.55904001f,0.563040018f,0.566519976f,0.56953001f,0.572080016f,0.574190021f,0.575909972f,0.57723999f,0.578209996f,0.578840017f,0.579159975f,0.579169989f,0.578909993f,0.578390002f,0.577639997f,0.576680005f,0.575519979f,0.574169993f,0.572640002f,0.570940018f,0.569069982f,0.567040026f,0.564849973f,0.562520027f,0.560029984f,0.557410002f,0.554660022f,0.551800013f,0.548829973f,0.545780003f,0.542670012f,0.539499998f,0.53628999f,0.533070028f,0.529850006f,0.526629984f,0.523450017f,0.520290017f,0.517149985f,0.514039993f,0.510950029f,0.507879972f,0.504830003f,0.501789987f,0.498769999f,0.49575001f,0.492749989f,0.489740014f,0.486719996f,0.48368001f,0.480589986f,0.477459997f,0.474260002f,0.470990002f,0.467629999f,0.464179993f,0.460619986f,0.456959993f,0.453200012f,0.449360013f,0.445439994f,0.441439986f,0.437370002f,0.43325001f,0.429080009f,0.424860001f,0.420610011f,0.416310012f,0.411989987f,0.407629997f,0.403230011f,0.398799986f,0.394340008f,0.389849991f,0.385329992f,0.380780011f,0.376199991f,0.371589988f,0.366970003f,0.36232999f,0.357690006f,0.35304001f,0.348390013f,0.34375f,0.339120001f,0.334509999f,0.329919994f,0.325329989f,0.320760012f,0.316170007f,0.311569989f,0.306939989f,0.302269995f,0.297549993f,0.292780012f,0.287939996f,0.283030003f,0.278050005f,0.273009986f,0.267930001f,0.262809992f,0.257660002f,0.252499998f,0.247329995f,0.242160007f,0.237010002f,0.231879994f,0.226779997f,0.221740007f,0.216769993f,0.21187f,0.207059994f,0.202360004f,0.197789997f,0.193340003f,0.189050004f,0.184909999f,0.180940002f,0.17712f,0.173449993f,0.169939995f,0.166580006f,0.163369998f,0.160300002f,0.15738f,0.154589996f,0.151950002f,0.149450004f,0.147090003f,0.144869998f,0.142790005f,0.140870005f,0.139080003f,0.137449995f,0.135969996f,0.134639993f,0.13346f,0.132420003f,0.131530002f,0.130759999f,0.130119994f,0.129600003f,0.129199997f,0.128900006f,0.128690004f,0.128580004f,0.128549993f,0.128600001f,0.12872f,0.128910005f,0.129140005f,0.129419997f,0.129749998f,0.130099997f,0.130469993f,0.130860001f,0.131259993f,0.131659999f,0.132049993f,0.132410005f,0.132750005f,0.133039996f,0.133289993f,0.133479998f,0.133599997f,0.133640006f,0.133599997f,0.133479998f,0.133289993f,0.133029997f,0.132709995f,0.132339999f,0.131919995f,0.131469995f,0.13098f,0.130469993f,0.129940003f,0.129390001f,0.128849998f,0.128309995f,0.127770007f,0.12726f,0.126760006f,0.126300007f,0.125880003f,0.125499994f,0.125180006f,0.124909997f,0.124690004f,0.12455f,0.124470003f,0.124459997f,0.124519996f,0.124669999f,0.12489f,0.125200003f,0.125609994f,0.126100004f,0.126670003f,0.127330005f,0.128069997f,0.128900006f,0.129800007f,0.130769998f,0.131830007f,0.132949993f,0.13414f,0.135399997f,0.136720002f,0.138080001f,0.139489993f,0.140939996f,0.142409995f,0.143910006f,0.14542f,0.146950006f,0.148479998f,0.150010005f,0.151539996f,0.153080001f,0.154620007f,0.156159997f,0.157700002f,0.159250006f,0.160789996f,0.16234f,0.163890004f,0.165490001f,0.167160004f,0.168950006f,0.170890003f,0.173030004f,0.175400004f,0.178039998f,0.180989996f,0.184279993f,0.18795f,0.192000002f,0.196390003f,0.201120004f,0.206169993f,0.211520001f,0.217150003f,0.223059997f,0.229220003f,0.235609993f,0.242229998f,0.249050006f,0.256049991f,0.263220012f,0.270550013f,0.278010011f,0.285589993f,0.293280005f,0.301050007f,0.308890015f,0.316320002f,0.324310005f,0.332410008f,0.340600014f,0.34889999f,0.357279986f,0.365750015f,0.374309987f,0.382950008f,0.391660005f,0.400440007f,0.409280002f,0.418179989f,0.427139997f,0.436150014f,0.445190012f,0.454279989f,0.463389993f,0.472530007f,0.48168999f,0.490859985f,0.500029981f,0.509209991f,0.518379986f,0.527540028f,0.536679983f,0.545790017f,0.554880023f,0.563920021f,0.572929978f,0.581879973f,0.590789974f,0.599629998f,0.608410001f,0.617120028f,0.625760019f,0.634310007f,0.642780006f,0.651170015f,0.659460008f,0.667649984f,0.675750017f,0.68374002f,0.691619992f,0.699400008f,0.707059979f,0.714600027f,0.722029984f,0.729340017f,0.736519992f,0.743579984f,0.750519991f,0.75733f,0.764010012f,0.77056998f,0.776989996f,0.783290029f,0.78944999f,0.795490026f,0.801400006f,0.807169974f,0.812820017f,0.818340003f,0.823740005f,0.828999996f,0.834150016f,0.839160025f,0.84404999f,0.848829985f,0.853479981f,0.858009994f,0.862420022f,0.866720021f,0.870899975f,0.874970019f,0.878929973f,0.882790029f,0.886529982f,0.890169978f};
static const float REF_CES74[400] = {0.0338749997f,0.0340639986f,0.0342539996f,0.0344449989f,0.0346370004f,0.0348300003f,0.0350250006f,0.0352200009f,0.0354159996f,0.0356130004f,0.0358120017f,0.0360109992f,0.036212001f,0.036412999f,0.0366160013f,0.0368199982f,0.0370239988f,0.0372299999f,0.0374369994f,0.037645001f,0.037827f,0.0380520001f,0.0382749997f,0.0384959988f,0.0387150012f,0.0389319994f,0.0391479991f,0.0393639989f,0.0395790003f,0.0397950001f,0.0400109999f,0.0402280018f,0.0404470004f,0.0406670012f,0.0408900008f,0.0411150008f,0.0413429998f,0.0415749997f,0.0418110006f,0.0420500003f,0.0422950014f,0.0425439999f,0.0427989997f,0.0430589989f,0.0433260016f,0.0435989983f,0.0438789986f,0.0441659987f,0.0444610007f,0.0447640009f,0.0450749993f,0.0453939997f,0.0457240008f,0.0460640006f,0.0464159995f,0.0467820019f,0.0471610017f,0.0475570001f,0.0479689986f,0.0483990014f,0.048847001f,0.0493160002f,0.0498009995f,0.050299f,0.0508089997f,0.0513259992f,0.0518469997f,0.0523689985f,0.0528890006f,0.0534039997f,0.0539110005f,0.0544059984f,0.0548870005f,0.0553530008f,0.0557999983f,0.0562269986f,0.0566309988f,0.0570110008f,0.0573639981f,0.0576889999f,0.0579809994f,0.0582420006f,0.0584699996f,0.0586690009f,0.0588399991f,0.0589840002f,0.0591039993f,0.0592009984f,0.0592759997f,0.0593330003f,0.0593709983f,0.0593939982f,0.0594040006f,0.0594020002f,0.0593920015f,0.0593740009f,0.0593530014f,0.0593300015f,0.0593070015f,0.0592870004f,0.0592719987f,0.0592640005f,0.0592590012f,0.0592529997f,0.0592439994f,0.0592259988f,0.0591950007f,0.0591490008f,0.0590829998f,0.0589930005f,0.0588749982f,0.0587260015f,0.0585479997f,0.0583419986f,0.0581099987f,0.0578540005f,0.0575769991f,0.0572809987f,0.0569659993f,0.0566370003f,0.0562940016f,0.0559390001f,0.0555769987f,0.0552110001f,0.0548430011f,0.0544780008f,0.0541200005f,0.0537710004f,0.0534359999f,0.0531169996f,0.0528189987f,0.0525429994f,0.05229f,0.0520570017f,0.0518420003f,0.0516429991f,0.0514600016f,0.0512889996f,0.051128f,0.0509769991f,0.0508330017f,0.050694f,0.0505569987f,0.050418999f,0.0502760001f,0.0501260012f,0.0499650016f,0.0497890003f,0.0495969988f,0.0493829995f,0.0491449982f,0.0488820001f,0.0485950001f,0.048289001f,0.0479689986f,0.0476379991f,0.0472999997f,0.0469599999f,0.0466220006f,0.046289999f,0.0459679998f,0.0456600003f,0.0453700013f,0.0450990014f,0.0448499992f,0.0446269996f,0.0444310009f,0.0442660004f,0.0441350006f,0.0440389998f,0.0439819992f,0.0439670011f,0.0439909995f,0.0440540016f,0.0441539995f,0.0442910008f,0.0444630012f,0.0446680002f,0.0449049994f,0.0451739989f,0.0454719998f,0.0457970016f,0.0461440012f,0.0465039983f,0.0468729995f,0.0472409986f,0.047603f,0.0479520001f,0.0482800007f,0.0485810004f,0.048847001f,0.0490740016f,0.0492589995f,0.049403999f,0.0495099984f,0.0495770015f,0.0496050008f,0.0495949984f,0.0495480001f,0.0494639985f,0.0493439995f,0.0491890013f,0.0490019992f,0.0487879999f,0.0485510007f,0.0482940003f,0.0480219983f,0.0477380008f,0.0474480018f,0.0471539982f,0.0468619987f,0.0465740003f,0.0462930016f,0.0460200012f,0.0457569994f,0.0455049984f,0.0452670008f,0.0450440012f,0.0448370017f,0.0446479991f,0.0444790013f,0.0443309993f,0.0442029983f,0.044094f,0.0440040007f,0.0439309999f,0.0438739993f,0.0438309982f,0.043802999f,0.0437880009f,0.043784f,0.0437909998f,0.0438069999f,0.0438309982f,0.0438599996f,0.0438949987f,0.0439319983f,0.0439709984f,0.0440099984f,0.0440470017f,0.0440820009f,0.0441120006f,0.0441379994f,0.0441609994f,0.0441810004f,0.044199001f,0.0442150012f,0.0442310013f,0.0442470014f,0.0442630015f,0.04428f,0.0443000011f,0.044321999f,0.0443489999f,0.0443819985f,0.0444220006f,0.0444709994f,0.0445289984f,0.0445990004f,0.0446810015f,0.0447769985f,0.0448880009f,0.0450179987f,0.0451689996f,0.0453439988f,0.0455450006f,0.0457770005f,0.0460410006f,0.0463409983f,0.0466799997f,0.0470600016f,0.0474850014f,0.0479549989f,0.0484719984f,0.0490369983f,0.049651999f,0.050317999f,0.0510360003f,0.0518070012f,0.0526320003f,0.053514f,0.0544530004f,0.0554549992f,0.0565249994f,0.0576700009f,0.0588949993f,0.0602050014f,0.0616069995f,0.0631069988f,0.0647090003f,0.0664210021f,0.0682459995f,0.0701889992f,0.0722530037f,0.0744400024f,0.0767550021f,0.0791999996f,0.0817790031f,0.0844950005f,0.0873500034f,0.0903479978f,0.0934920013f,0.0967869982f,0.10024f,0.103840001f,0.107620001f,0.111550003f,0.115659997f,0.119949996f,0.124420002f,0.129069999f,0.13391f,0.138940006f,0.144170001f,0.149599999f,0.155239999f,0.161080003f,0.167140007f,0.173419997f,0.179920003f,0.186649993f,0.192589998f,0.199379995f,0.206349999f,0.213499993f,0.220829993f,0.22834f,0.236019999f,0.243880004f,0.251920015f,0.260129988f,0.268519998f,0.277069986f,0.285789996f,0.294669986f,0.303710014f,0.312900007f,0.322239995f,0.331730008f,0.341349989f,0.351110011f,0.361000001f,0.370999992f,0.381119996f,0.391339988f,0.401650012f,0.412059993f,0.422540009f,0.433090001f,0.443709999f,0.454369992f,0.465079993f,0.475820005f,0.486580014f,0.497359991f,0.508130014f,0.518899977f,0.529659986f,0.540380001f,0.551069975f,0.56171f,0.572290003f,0.582809985f,0.59325999f,0.603619993f,0.613879979f,0.624050021f,0.634109974f,0.644050002f,0.65388f,0.663569987f,0.673120022f,0.682539999f,0.691799998f,0.700919986f,0.709879994f,0.718680024f,0.727310002f,0.735780001f,0.744069993f,0.752200007f,0.760140002f,0.767920017f,0.775510013f,0.782930017f,0.79016f,0.797219992f,0.804099977f,0.81081003f,0.817330003f,0.823679984f,0.829850018f,0.835860014f,0.841690004f,0.847350001f,0.852840006f,0.858169973f,0.86334002f,0.868340015f,0.873189986f};
static const float REF_CES75[400] = {0.0291930009f,0.0300179999f,0.0308650006f,0.0317360014f,0.0326309986f,0.0335489996f,0.0344929993f,0.0354630016f,0.0364580005f,0.0374809988f,0.0385310017f,0.0396090001f,0.0407159999f,0.0418529995f,0.0430199988f,0.044218f,0.0454469994f,0.0467099994f,0.0480049998f,0.0493349992f,0.0509000011f,0.05198f,0.0533390008f,0.0549330004f,0.0567199998f,0.0586570017f,0.0607010014f,0.0628099963f,0.0649420023f,0.0670519993f,0.0691f,0.0710519999f,0.0729150027f,0.0747060031f,0.076444f,0.0781449974f,0.0798259974f,0.0815050006f,0.0831980035f,0.0849239975f,0.0866999999f,0.0885389969f,0.0904420018f,0.0924049988f,0.0944259986f,0.0965019986f,0.0986300036f,0.100809999f,0.103030004f,0.105290003f,0.107600003f,0.10994f,0.112319998f,0.114720002f,0.11716f,0.119620003f,0.122100003f,0.124609999f,0.127120003f,0.129659995f,0.132200003f,0.134749994f,0.137319997f,0.139899999f,0.14249f,0.145119995f,0.147760004f,0.150440007f,0.153160006f,0.15591f,0.158700004f,0.161540002f,0.164399996f,0.167290002f,0.170179993f,0.173069999f,0.175929993f,0.178760007f,0.181539997f,0.184259996f,0.186900005f,0.189449996f,0.1919f,0.194230005f,0.19641f,0.198430002f,0.200269997f,0.201920003f,0.203349993f,0.204549998f,0.205500007f,0.206190005f,0.206609994f,0.206770003f,0.206689999f,0.206359997f,0.205779999f,0.204980001f,0.203940004f,0.202680007f,0.201199993f,0.199509993f,0.197620004f,0.195559993f,0.193320006f,0.190939993f,0.188429996f,0.18581f,0.183080003f,0.180270001f,0.177399993f,0.174470007f,0.171499997f,0.168489993f,0.165429994f,0.16234f,0.159219995f,0.156069994f,0.152899995f,0.14971f,0.146500006f,0.143279999f,0.140049994f,0.136830002f,0.133609995f,0.130400002f,0.127220005f,0.124059997f,0.120930001f,0.117839999f,0.114799999f,0.111809999f,0.108879998f,0.106020004f,0.103239998f,0.100539997f,0.0979330018f,0.0954279974f,0.0930320024f,0.0907529965f,0.0886000022f,0.0865779966f,0.0846849978f,0.0829150006f,0.0812650025f,0.0797289982f,0.0783030018f,0.076981999f,0.0757609978f,0.074634999f,0.0736000016f,0.0726490021f,0.0717730001f,0.0709580034f,0.0701939985f,0.069467999f,0.0687690005f,0.0680840015f,0.0674019977f,0.0667119995f,0.0659999996f,0.0652579963f,0.0644840002f,0.0636779964f,0.0628409982f,0.0619740002f,0.0610760003f,0.0601500012f,0.0591950007f,0.0582109988f,0.0571999997f,0.0561630018f,0.0551050007f,0.0540339984f,0.0529550016f,0.051874999f,0.0508019999f,0.0497409999f,0.048698999f,0.0476830006f,0.0467000008f,0.045756001f,0.0448600017f,0.0440209992f,0.0432480015f,0.0425500013f,0.041937001f,0.0414160006f,0.0409960002f,0.0406880006f,0.0405000001f,0.0404389985f,0.0405049995f,0.0406959988f,0.0410109982f,0.0414480008f,0.0420049988f,0.042679999f,0.0434730016f,0.0443800017f,0.0454000011f,0.0465269983f,0.0477360003f,0.0489969999f,0.0502809994f,0.0515579991f,0.0527979992f,0.0539719984f,0.0550500005f,0.0560030006f,0.0568000004f,0.0574189983f,0.0578619987f,0.0581399985f,0.0582600012f,0.0582319982f,0.0580659993f,0.0577699989f,0.0573539995f,0.0568279997f,0.0562000014f,0.0554810017f,0.0546839982f,0.0538240001f,0.0529169999f,0.0519770011f,0.0510179996f,0.0500570014f,0.0491060019f,0.0481830016f,0.0472999997f,0.0464709997f,0.0456960015f,0.0449750014f,0.0443050005f,0.0436859988f,0.0431159995f,0.0425940007f,0.0421180017f,0.0416870005f,0.0412999988f,0.0409549996f,0.0406499989f,0.0403850004f,0.0401570015f,0.039965f,0.0398089997f,0.0396849997f,0.0395939983f,0.0395319983f,0.0395000018f,0.0394949988f,0.0395149998f,0.0395569988f,0.0396200009f,0.0397019982f,0.0397990011f,0.0399099998f,0.040031001f,0.0401620008f,0.0403000005f,0.0404429995f,0.0405940004f,0.0407579988f,0.0409389995f,0.0411400013f,0.0413659997f,0.0416209996f,0.0419090018f,0.0422339998f,0.0425999984f,0.0430109985f,0.0434710011f,0.0439819992f,0.0445489995f,0.045175001f,0.0458620004f,0.0466150008f,0.047437001f,0.0483309999f,0.0493000001f,0.0503470004f,0.0514689982f,0.0526629984f,0.0539240018f,0.0552490018f,0.0566340014f,0.0580749996f,0.0595690012f,0.0611120015f,0.0627000034f,0.0643289983f,0.0659940019f,0.0676909983f,0.0694129989f,0.0711560026f,0.0729139969f,0.0746830031f,0.0764570013f,0.0782309994f,0.0799999982f,0.0817610025f,0.0835189968f,0.0852819979f,0.0870580003f,0.0888530016f,0.0906770006f,0.0925360024f,0.0944370031f,0.0963900015f,0.0983999968f,0.100469999f,0.102569997f,0.104659997f,0.106700003f,0.108670004f,0.110519998f,0.112209998f,0.113710001f,0.114990003f,0.115999997f,0.117660001f,0.119089998f,0.120530002f,0.121990003f,0.123460002f,0.124949999f,0.126450002f,0.127969995f,0.12951f,0.131060004f,0.132620007f,0.134200007f,0.135800004f,0.13741f,0.139039993f,0.140689999f,0.142350003f,0.144030005f,0.145720005f,0.147430003f,0.149159998f,0.150900006f,0.152659997f,0.154440001f,0.156230003f,0.158050001f,0.159869999f,0.161719993f,0.16358f,0.165460005f,0.167359993f,0.169269994f,0.171200007f,0.173150003f,0.175119996f,0.177100003f,0.179110005f,0.181130007f,0.183160007f,0.185220003f,0.187289998f,0.189380005f,0.191489995f,0.193619996f,0.195759997f,0.197919995f,0.200100005f,0.202299997f,0.204520002f,0.206750005f,0.209000006f,0.211270005f,0.21356f,0.215869993f,0.218189999f,0.220530003f,0.222890005f,0.225270003f,0.22766f,0.230079994f,0.23251f,0.234960005f,0.237430006f,0.239910007f,0.242410004f,0.244929999f,0.247470006f,0.250030011f,0.252600014f,0.255190015f,0.257800013f,0.260419995f,0.263069987f,0.265729994f,0.268400013f,0.271100014f,0.273809999f,0.276540011f,0.279280007f};
static const float REF_CES76[400] = {0.211989999f,0.215409994f,0.218879998f,0.222379997f,0.225930005f,0.229509994f,0.233129993f,0.2368f,0.240500003f,0.244240001f,0.248030007f,0.251850009f,0.255710006f,0.259609997f,0.26354f,0.26752001f,0.271530002f,0.275579989f,0.27967f,0.283789992f,0.288599998f,0.291779995f,0.295760006f,0.300399989f,0.305559993f,0.31110999f,0.316890001f,0.32277f,0.328610003f,0.33427f,0.339599997f,0.344500005f,0.348989993f,0.353139997f,0.357010007f,0.360659987f,0.364149988f,0.367529988f,0.370880008f,0.374249995f,0.377700001f,0.381280005f,0.38499999f,0.388819993f,0.392749995f,0.396750003f,0.400830001f,0.404960006f,0.409119993f,0.413309991f,0.417499989f,0.421680003f,0.425850004f,0.42998001f,0.434060007f,0.438080013f,0.442019999f,0.445879996f,0.449640006f,0.453280002f,0.456800014f,0.460180014f,0.463400006f,0.466439992f,0.469289988f,0.471920013f,0.474319994f,0.47646001f,0.47834f,0.47992f,0.48120001f,0.482149988f,0.482789993f,0.483130008f,0.483170003f,0.482930005f,0.482419997f,0.481649995f,0.48063001f,0.479380012f,0.477899998f,0.476209998f,0.474319994f,0.472259998f,0.47003001f,0.46766001f,0.465169996f,0.462570012f,0.459879994f,0.457120001f,0.454299986f,0.451440006f,0.448549986f,0.445609987f,0.442629993f,0.439590007f,0.436509997f,0.433369994f,0.430180013f,0.426919997f,0.423599988f,0.420219988f,0.416759998f,0.413249999f,0.409669995f,0.406029999f,0.402319998f,0.398559988f,0.394730002f,0.390850008f,0.386900008f,0.3829f,0.378829986f,0.374689996f,0.370490015f,0.366210014f,0.36184001f,0.3574f,0.352860004f,0.348230004f,0.343499988f,0.338669986f,0.333739996f,0.328729987f,0.323639989f,0.318480015f,0.313259989f,0.307980001f,0.302650005f,0.297289997f,0.291900009f,0.286489993f,0.281069994f,0.275680006f,0.270330012f,0.265029997f,0.259820014f,0.254709989f,0.249730006f,0.244880006f,0.240199998f,0.235699996f,0.231370002f,0.227200001f,0.223179996f,0.219290003f,0.215540007f,0.211889997f,0.208340004f,0.204879999f,0.201499999f,0.198180005f,0.194910005f,0.191670001f,0.188439995f,0.185210004f,0.181960002f,0.178670004f,0.175319999f,0.171910003f,0.168400005f,0.164790004f,0.161080003f,0.157269999f,0.153349996f,0.149350002f,0.145249993f,0.141069993f,0.136790007f,0.132440001f,0.128000006f,0.123489998f,0.118929997f,0.114330001f,0.109729998f,0.105159998f,0.100620002f,0.0961529985f,0.0917780027f,0.0875189975f,0.0834000036f,0.079444997f,0.0756720006f,0.0720999986f,0.0687460005f,0.0656270012f,0.062762998f,0.0601699986f,0.0578670017f,0.0558709987f,0.0542000011f,0.0528700016f,0.0518850014f,0.0512490012f,0.0509649999f,0.0510349981f,0.0514619984f,0.0522489995f,0.0533990003f,0.0549149998f,0.0568000004f,0.0590469986f,0.0616119988f,0.0644410029f,0.0674830005f,0.0706830025f,0.0739889964f,0.0773470029f,0.0807029977f,0.0840049982f,0.0872000009f,0.0902410001f,0.0931089967f,0.0957949981f,0.098284997f,0.100570001f,0.102640003f,0.10447f,0.106069997f,0.107419997f,0.108499996f,0.10932f,0.109889999f,0.110250004f,0.110430002f,0.11045f,0.110359997f,0.110179998f,0.10994f,0.109669998f,0.109399997f,0.109159999f,0.108960003f,0.108790003f,0.108659998f,0.108570002f,0.108510002f,0.108499996f,0.108520001f,0.108589999f,0.1087f,0.108850002f,0.109049998f,0.109279998f,0.109549999f,0.109860003f,0.110210001f,0.110579997f,0.110990003f,0.111429997f,0.111900002f,0.112400003f,0.11293f,0.113499999f,0.114119999f,0.114809997f,0.115560003f,0.116389997f,0.117299996f,0.118299998f,0.119400002f,0.120609999f,0.121919997f,0.123340003f,0.124849997f,0.126460001f,0.12816f,0.129940003f,0.131819993f,0.133770004f,0.135800004f,0.137899995f,0.140059993f,0.142269999f,0.144490004f,0.146720007f,0.148949996f,0.151140004f,0.153300002f,0.155389994f,0.157399997f,0.159319997f,0.161129996f,0.162819996f,0.164379999f,0.165790007f,0.167050004f,0.168129995f,0.169019997f,0.169719994f,0.170200005f,0.170469999f,0.170519993f,0.170389995f,0.170090005f,0.169640005f,0.169049993f,0.168339998f,0.167539999f,0.166649997f,0.165700004f,0.164700001f,0.163640007f,0.162499994f,0.161269993f,0.159940004f,0.158490002f,0.156910002f,0.155169994f,0.153280005f,0.151199996f,0.148939997f,0.14655f,0.144089997f,0.141609997f,0.139170006f,0.136840001f,0.134660006f,0.132709995f,0.131040007f,0.129700005f,0.127700001f,0.125980005f,0.124279998f,0.122599997f,0.120949998f,0.119309999f,0.117689997f,0.11609f,0.114500001f,0.112939999f,0.111400001f,0.109870002f,0.10836f,0.106870003f,0.105400003f,0.103950001f,0.102509998f,0.101099998f,0.0996949971f,0.098311998f,0.0969460011f,0.0955960006f,0.0942640007f,0.0929479972f,0.0916490033f,0.0903659984f,0.0891000032f,0.0878489986f,0.0866139978f,0.0853950009f,0.0841920003f,0.0830039978f,0.0818310007f,0.0806730017f,0.0795309991f,0.0784030035f,0.0772899985f,0.0761910006f,0.0751060024f,0.0740360022f,0.0729800016f,0.0719380006f,0.0709090009f,0.0698949993f,0.0688930005f,0.0679050013f,0.0669300035f,0.0659679994f,0.0650189966f,0.0640819967f,0.0631589964f,0.0622470006f,0.0613479987f,0.0604609996f,0.0595859997f,0.0587229989f,0.0578720011f,0.0570320003f,0.0562039986f,0.0553870015f,0.0545810014f,0.0537859984f,0.0530019999f,0.0522289984f,0.0514670014f,0.0507149994f,0.0499739982f,0.0492429994f,0.0485219993f,0.0478110015f,0.0471099988f,0.046418f,0.0457369983f,0.0450650007f,0.0444019996f,0.0437490009f,0.0431049988f,0.0424689986f,0.0418430008f};
static const float REF_CES77[400] = {0.0280479994f,0.0296359994f,0.0306439996f,0.0317160003f,0.0330949984f,0.0353740007f,0.0384089984f,0.041974999f,0.0458029993f,0.0499179997f,0.0542210005f,0.0586009994f,0.0631640032f,0.0679280013f,0.0729969963f,0.0782999992f,0.083754003f,0.0892470032f,0.0948510021f,0.100428998f,0.105929002f,0.110652998f,0.115483999f,0.120416f,0.125438005f,0.130459994f,0.135438994f,0.140407994f,0.145471007f,0.150663003f,0.155909002f,0.161137998f,0.166308999f,0.171404004f,0.176431f,0.181403995f,0.186391994f,0.191396996f,0.196364999f,0.201203004f,0.205860004f,0.210363999f,0.214748994f,0.219037995f,0.223236993f,0.227349997f,0.231406003f,0.235411003f,0.239247993f,0.242941007f,0.246491f,0.249887004f,0.253170013f,0.256341994f,0.259407997f,0.262338996f,0.265047014f,0.267509013f,0.269804001f,0.272094995f,0.274253994f,0.276187003f,0.277967989f,0.27967599f,0.281414986f,0.283125997f,0.284763992f,0.286388993f,0.287954986f,0.289359987f,0.290614992f,0.29172501f,0.292714f,0.293621987f,0.294353008f,0.294800013f,0.295042008f,0.295204014f,0.29529199f,0.295278013f,0.295170993f,0.294927001f,0.294595987f,0.294248015f,0.293805987f,0.293265015f,0.292636007f,0.291842014f,0.290888011f,0.289878994f,0.288751006f,0.287494004f,0.286152005f,0.284752995f,0.283291996f,0.281756014f,0.280151993f,0.278521001f,0.276919991f,0.275234997f,0.27334401f,0.271420002f,0.26957199f,0.267697006f,0.265677989f,0.263460994f,0.261108994f,0.258736014f,0.256338f,0.253888994f,0.251406014f,0.248796001f,0.246147007f,0.243468001f,0.240740001f,0.238093004f,0.235597f,0.233171999f,0.230644003f,0.228009f,0.225346997f,0.222715005f,0.220238f,0.217822999f,0.215384007f,0.212965995f,0.210550994f,0.208132997f,0.205734f,0.203357995f,0.200978994f,0.198635995f,0.196338996f,0.194047004f,0.191716f,0.189335003f,0.186941996f,0.184556007f,0.182180002f,0.179815993f,0.177495003f,0.175235003f,0.172944993f,0.170624003f,0.168292999f,0.165978f,0.163678005f,0.161394f,0.159146994f,0.156939998f,0.154780999f,0.152677998f,0.150625005f,0.148603007f,0.146598995f,0.144639f,0.142719999f,0.140837997f,0.13899f,0.137160003f,0.135341004f,0.133526996f,0.131705999f,0.129894003f,0.128097996f,0.126321003f,0.124534003f,0.122739002f,0.120943002f,0.119139001f,0.117338002f,0.115547001f,0.113774002f,0.112043999f,0.110347003f,0.1087f,0.107081003f,0.105515003f,0.103996001f,0.102540001f,0.101132996f,0.0997880027f,0.0984970033f,0.0972580016f,0.0960709974f,0.0949129984f,0.0937829986f,0.0927079991f,0.0916540027f,0.0906580016f,0.0896710008f,0.0887290016f,0.0878129974f,0.086935997f,0.0860909969f,0.0852579996f,0.0844670013f,0.0837130025f,0.0829880014f,0.0823310018f,0.0816930011f,0.0811190009f,0.0805670023f,0.0800589994f,0.0795790032f,0.0791359991f,0.0787499994f,0.0784030035f,0.0781090036f,0.0778599977f,0.0776429996f,0.077463001f,0.0772939995f,0.0771899968f,0.0771069974f,0.0770730004f,0.0770699978f,0.077101998f,0.0771540031f,0.0772159994f,0.0773039982f,0.0774220005f,0.0775649995f,0.0777660012f,0.0779870003f,0.0782509968f,0.0785529986f,0.0789190009f,0.079301998f,0.0797500014f,0.0802339986f,0.0807809979f,0.0813879967f,0.0820560008f,0.0827789977f,0.0835720003f,0.0844599977f,0.0854249969f,0.0864610001f,0.0876239985f,0.0888559967f,0.0902080014f,0.0916569978f,0.0932210013f,0.0949509963f,0.0968139991f,0.098803997f,0.100895002f,0.103096001f,0.105410002f,0.107841998f,0.110432997f,0.113158002f,0.116034001f,0.119055003f,0.122160003f,0.125407994f,0.128794f,0.132327005f,0.136041999f,0.139918f,0.143924996f,0.148078993f,0.152382001f,0.156798005f,0.161328003f,0.166002005f,0.170764998f,0.175649002f,0.180656999f,0.185741007f,0.190911993f,0.196131006f,0.201379001f,0.206639007f,0.211931005f,0.217258006f,0.222592995f,0.227972001f,0.233376995f,0.238767996f,0.244108006f,0.249364004f,0.254606009f,0.259815991f,0.264961004f,0.269995987f,0.274886012f,0.279626012f,0.284171999f,0.288516998f,0.29263401f,0.296597004f,0.300431997f,0.30409199f,0.307370007f,0.310359001f,0.313562006f,0.316648006f,0.319660991f,0.32248801f,0.32487601f,0.327080995f,0.329079002f,0.330870003f,0.33247301f,0.333918989f,0.33515501f,0.33623901f,0.337125003f,0.337817013f,0.338346004f,0.338703007f,0.338919014f,0.339002997f,0.338975012f,0.33880499f,0.338483006f,0.338036001f,0.337424994f,0.336668015f,0.335770994f,0.334793001f,0.333759993f,0.332598001f,0.331333011f,0.329946011f,0.328512996f,0.327073991f,0.325634003f,0.324247986f,0.322923005f,0.321682006f,0.320432007f,0.319148988f,0.317878991f,0.316794991f,0.315878004f,0.314556003f,0.313160986f,0.311652005f,0.310112f,0.308813989f,0.307518989f,0.306226999f,0.304937989f,0.303651005f,0.302368999f,0.301088989f,0.299811989f,0.298537999f,0.29726699f,0.296000004f,0.294735014f,0.293473989f,0.292216003f,0.290960997f,0.289709985f,0.288461f,0.287216008f,0.285973012f,0.284734994f,0.283499002f,0.282267004f,0.281037986f,0.279812008f,0.27858901f,0.277370006f,0.276154011f,0.274940997f,0.273732007f,0.272525996f,0.271322995f,0.270123988f,0.268927991f,0.267735004f,0.266546011f,0.265359998f,0.264176995f,0.262998015f,0.261821985f,0.260627002f,0.259436011f,0.258249998f,0.257068008f,0.255890995f,0.254718006f,0.253549993f,0.252386004f,0.251226991f,0.250072986f,0.248923004f,0.247777998f,0.246637002f,0.245500997f,0.244369f,0.243241996f,0.242119998f,0.241001993f,0.239889994f};
static const float REF_CES78[400] = {0.129470006f,0.131840006f,0.134240001f,0.136680007f,0.139149994f,0.141670004f,0.144219995f,0.146809995f,0.149440005f,0.152099997f,0.154809996f,0.157560006f,0.160339996f,0.163159996f,0.166030005f,0.168929994f,0.171880007f,0.174860001f,0.177890003f,0.180950001f,0.181199998f,0.185939997f,0.19032f,0.19438f,0.198170006f,0.201719999f,0.205090001f,0.208309993f,0.211429998f,0.214499995f,0.217539996f,0.220620006f,0.223769993f,0.227039993f,0.230460003f,0.234080002f,0.237959996f,0.242119998f,0.246610001f,0.251480013f,0.256760001f,0.262499988f,0.268669993f,0.27522999f,0.28215f,0.289400011f,0.296950012f,0.304760009f,0.312810004f,0.321040004f,0.329439998f,0.337969989f,0.346560001f,0.355150014f,0.363669991f,0.372060001f,0.380259991f,0.388190001f,0.395799994f,0.403010011f,0.409770012f,0.416009992f,0.421730012f,0.426910013f,0.43156001f,0.435669988f,0.439220011f,0.442229986f,0.444680005f,0.446570009f,0.447899997f,0.448659986f,0.448870003f,0.448570013f,0.447789997f,0.446539998f,0.444860011f,0.442779988f,0.440329999f,0.437519997f,0.434390008f,0.430970013f,0.427280009f,0.423319995f,0.419129997f,0.414719999f,0.410109997f,0.405319989f,0.400350004f,0.395249993f,0.390009999f,0.384660006f,0.379229993f,0.373739988f,0.368200004f,0.362650007f,0.357109994f,0.351599991f,0.346150011f,0.340770006f,0.335500002f,0.330350012f,0.325329989f,0.320430011f,0.315649986f,0.310990006f,0.306450009f,0.302029997f,0.297719985f,0.293520004f,0.289429992f,0.285450011f,0.281560004f,0.277740002f,0.273990005f,0.27026999f,0.266579986f,0.262890011f,0.259189993f,0.255470008f,0.251700014f,0.247869998f,0.244000003f,0.240089998f,0.236139998f,0.232189998f,0.22823f,0.22428f,0.220339999f,0.216440007f,0.212579995f,0.208770007f,0.205029994f,0.201350003f,0.197740003f,0.194209993f,0.19077f,0.187429994f,0.184190005f,0.181050003f,0.178029999f,0.175119996f,0.172330007f,0.169650003f,0.167070001f,0.164580002f,0.162180007f,0.159850001f,0.157609999f,0.155420005f,0.153300002f,0.151230007f,0.149210006f,0.147200003f,0.145219997f,0.143230006f,0.141230002f,0.139210001f,0.137140006f,0.135030001f,0.132850006f,0.130600005f,0.128279999f,0.125890002f,0.123460002f,0.120980002f,0.118469998f,0.115929998f,0.113370001f,0.110799998f,0.108230002f,0.105659999f,0.103119999f,0.100599997f,0.0981220007f,0.0956949964f,0.0933289975f,0.091035001f,0.0888239965f,0.0867070034f,0.0846939981f,0.0827959999f,0.0810109973f,0.0793400034f,0.0777800009f,0.076330997f,0.0749899969f,0.0737579986f,0.0726319999f,0.0716110021f,0.0706939995f,0.0698800012f,0.0691689998f,0.0685610026f,0.0680570006f,0.0676560029f,0.0673590004f,0.067166999f,0.0670799986f,0.0670970008f,0.0672189966f,0.0674460009f,0.0677750036f,0.0681990013f,0.0687149987f,0.0693179965f,0.0700030029f,0.0707660019f,0.0716020018f,0.0725060031f,0.0734750032f,0.0745010003f,0.0755769983f,0.076692f,0.0778380036f,0.0790029988f,0.0801799968f,0.0813559964f,0.0825240016f,0.0836730003f,0.0847939998f,0.0858760029f,0.0869119987f,0.0878930017f,0.088812001f,0.089658998f,0.0904269964f,0.0911070034f,0.0916910022f,0.0921709985f,0.0925379992f,0.0927880034f,0.0929249972f,0.0929580033f,0.0928940028f,0.0927430019f,0.0925109982f,0.092207998f,0.0918409973f,0.0914189965f,0.0909499973f,0.0904410034f,0.089902997f,0.0893429965f,0.0887710005f,0.0881960019f,0.0876270011f,0.0870719999f,0.0865420029f,0.0860439986f,0.0855880007f,0.0851820037f,0.0848309994f,0.0845390037f,0.0843100026f,0.0841479972f,0.0840580016f,0.084044002f,0.0841090009f,0.0842590034f,0.0844959989f,0.0848240033f,0.0852420032f,0.0857480019f,0.0863389969f,0.0870129988f,0.0877669975f,0.0886000022f,0.0895090029f,0.0904909968f,0.0915450007f,0.0926679969f,0.0938540027f,0.0950979963f,0.0963929966f,0.097736001f,0.0991190001f,0.100539997f,0.101989999f,0.103459999f,0.104950003f,0.106449999f,0.107969999f,0.10949f,0.111019999f,0.112559997f,0.114100002f,0.11564f,0.117169999f,0.118709996f,0.120240003f,0.121770002f,0.123329997f,0.12494f,0.126660004f,0.1285f,0.130500004f,0.132689998f,0.135120004f,0.137810007f,0.140790001f,0.144099995f,0.147729993f,0.151659995f,0.155880004f,0.160390005f,0.165169999f,0.170210004f,0.175500005f,0.181020007f,0.186759993f,0.192719996f,0.198880002f,0.205219999f,0.211740002f,0.218419999f,0.225260004f,0.232229993f,0.239340007f,0.246560007f,0.253879994f,0.261040002f,0.268629998f,0.276349992f,0.284209996f,0.292199999f,0.300319999f,0.308569998f,0.31694001f,0.32543999f,0.33405f,0.34277001f,0.351599991f,0.360529989f,0.369560003f,0.378679991f,0.387890011f,0.397179991f,0.40654999f,0.415980011f,0.425469995f,0.43502f,0.444620013f,0.454259992f,0.463939995f,0.473639995f,0.483359993f,0.493090004f,0.502830029f,0.512570024f,0.522300005f,0.532010019f,0.541700006f,0.551349998f,0.560970008f,0.570540011f,0.580060005f,0.589519978f,0.598909974f,0.608229995f,0.617470026f,0.626630008f,0.635699987f,0.644680023f,0.653550029f,0.662320018f,0.670979977f,0.679520011f,0.687940001f,0.696240008f,0.704419971f,0.712469995f,0.720380008f,0.728160024f,0.735800028f,0.743309975f,0.750670016f,0.757889986f,0.764970005f,0.771899998f,0.778689981f,0.785329998f,0.79181999f,0.798169971f,0.80438f,0.81042999f,0.816349983f,0.822120011f,0.827740014f,0.833230019f,0.838569999f,0.843770027f,0.848839998f,0.853770018f,0.85856998f,0.86322999f,0.867770016f,0.872179985f,0.876460016f,0.880609989f};
static const float REF_CES79[400] = {0.567489982f,0.569710016f,0.571929991f,0.574150026f,0.576359987f,0.578570008f,0.580770016f,0.582970023f,0.585169971f,0.587369978f,0.589559972f,0.591750026f,0.593930006f,0.596109986f,0.598290026f,0.600459993f,0.602630019f,0.604799986f,0.606959999f,0.609120011f,0.606620014f,0.61097002f,0.614880025f,0.618369997f,0.621469975f,0.624220014f,0.626630008f,0.628740013f,0.630569994f,0.632160008f,0.633530021f,0.6347f,0.635710001f,0.636590004f,0.637359977f,0.63805002f,0.638679981f,0.639299989f,0.639909983f,0.640559971f,0.641269982f,0.642059982f,0.642920017f,0.643830001f,0.644789994f,0.64576f,0.646730006f,0.647689998f,0.648609996f,0.649489999f,0.65030998f,0.651040018f,0.651679993f,0.652209997f,0.652639985f,0.652949989f,0.653129995f,0.653180003f,0.653069973f,0.652809978f,0.652390003f,0.651799977f,0.651069999f,0.65022999f,0.649320006f,0.648370028f,0.647409976f,0.64647001f,0.645600021f,0.644810021f,0.644150019f,0.643639982f,0.643280029f,0.643050015f,0.642960012f,0.642970026f,0.643100023f,0.643320024f,0.643620014f,0.643999994f,0.644450009f,0.644940019f,0.64546001f,0.645969987f,0.646440029f,0.646839976f,0.64714998f,0.647319973f,0.647319973f,0.647140026f,0.646730006f,0.646080017f,0.645179987f,0.644060016f,0.642719984f,0.641189992f,0.639469981f,0.637579978f,0.635540009f,0.633360028f,0.631039977f,0.628620028f,0.626070023f,0.62342f,0.620660007f,0.61778003f,0.614790022f,0.611699998f,0.60848999f,0.605180025f,0.60176003f,0.598230004f,0.594609976f,0.590900004f,0.58713001f,0.583299994f,0.579419971f,0.575519979f,0.571590006f,0.567659974f,0.563730001f,0.559819996f,0.555930018f,0.552070022f,0.548229992f,0.544430017f,0.540660024f,0.536930025f,0.53324002f,0.529600024f,0.526000023f,0.522459984f,0.518959999f,0.515489995f,0.512049973f,0.508629978f,0.505219996f,0.501800001f,0.498369992f,0.494929999f,0.491450012f,0.487940013f,0.484409988f,0.480850011f,0.477279991f,0.473699987f,0.470120013f,0.466560006f,0.463010013f,0.459490001f,0.456010014f,0.452560008f,0.44916001f,0.44580999f,0.442519993f,0.439280003f,0.436089993f,0.432980001f,0.429930001f,0.426950008f,0.42403999f,0.421209991f,0.418460011f,0.415780008f,0.413179994f,0.410659999f,0.408219993f,0.405860007f,0.403569996f,0.401349992f,0.39921999f,0.397159994f,0.395170003f,0.393249989f,0.391400009f,0.389609993f,0.387879997f,0.386200011f,0.384570003f,0.382990003f,0.381449997f,0.379940003f,0.378470004f,0.377029985f,0.375609994f,0.374199986f,0.372799993f,0.371399999f,0.370000005f,0.368580014f,0.367150009f,0.365700006f,0.364239991f,0.362789989f,0.36135f,0.359950006f,0.358599991f,0.357309997f,0.356090009f,0.354970008f,0.35394001f,0.35304001f,0.35225001f,0.351579994f,0.351029992f,0.350600004f,0.350279987f,0.350080013f,0.349999994f,0.350030005f,0.350169986f,0.350430012f,0.350800008f,0.35126999f,0.351830006f,0.352470011f,0.353199989f,0.353989989f,0.354849994f,0.355760008f,0.356720001f,0.357730001f,0.358770013f,0.359840006f,0.360940009f,0.362069994f,0.363220006f,0.364389986f,0.365559995f,0.366750002f,0.367940009f,0.369139999f,0.37033999f,0.371560007f,0.372799993f,0.374080002f,0.375389993f,0.376740009f,0.378149986f,0.379610002f,0.381150007f,0.382759988f,0.384460002f,0.38628f,0.38824001f,0.390350014f,0.392639995f,0.395130008f,0.397839993f,0.400779992f,0.403979987f,0.407460004f,0.411220014f,0.415259987f,0.419569999f,0.42414999f,0.429010004f,0.434139997f,0.439539999f,0.44521001f,0.451139987f,0.457340002f,0.463800013f,0.470499992f,0.47744f,0.484600008f,0.491979986f,0.499559999f,0.50733f,0.515290022f,0.523419976f,0.531710029f,0.540130019f,0.548650026f,0.557229996f,0.565829992f,0.574429989f,0.583000004f,0.591480017f,0.599870026f,0.608110011f,0.616180003f,0.624069989f,0.631760001f,0.639240026f,0.646499991f,0.653530002f,0.660319984f,0.666849971f,0.673110008f,0.679099977f,0.684800029f,0.690219998f,0.695379972f,0.700290024f,0.704959989f,0.709399998f,0.713630021f,0.71766001f,0.721499979f,0.725160003f,0.728670001f,0.73202002f,0.735239983f,0.73834002f,0.741339982f,0.74425f,0.747080028f,0.749840021f,0.752560019f,0.755249977f,0.757920027f,0.760580003f,0.763249993f,0.765950024f,0.768679976f,0.77147001f,0.77433002f,0.777270019f,0.780300021f,0.783439994f,0.785090029f,0.787670016f,0.790220022f,0.792750001f,0.795249999f,0.797739983f,0.800199986f,0.802640021f,0.805050015f,0.807449996f,0.809819996f,0.812170029f,0.814499974f,0.816799998f,0.819079995f,0.821340024f,0.823580027f,0.825789988f,0.827989995f,0.830160022f,0.832310021f,0.834439993f,0.836539984f,0.838630021f,0.840690017f,0.842729986f,0.844749987f,0.846750021f,0.848730028f,0.850690007f,0.852620006f,0.85453999f,0.856429994f,0.858309984f,0.860159993f,0.861989975f,0.863810003f,0.86559999f,0.867370009f,0.869130015f,0.870859981f,0.872569978f,0.874270022f,0.875940025f,0.877600014f,0.879230022f,0.880850017f,0.882449985f,0.884029984f,0.885590017f,0.887139976f,0.888660014f,0.890169978f,0.891659975f,0.893130004f,0.894580007f,0.896019995f,0.897440016f,0.89884001f,0.90022999f,0.90158999f,0.902949989f,0.904280007f,0.905600011f,0.906899989f,0.908190012f,0.909460008f,0.910709977f,0.911949992f,0.91316998f,0.914380014f,0.915570021f,0.916750014f,0.91790998f,0.919059992f,0.920189977f,0.921310008f,0.922410011f,0.923500001f};
static const float REF_CES80[400] = {0.316839993f,0.322679996f,0.328319997f,0.333790004f,0.339120001f,0.344330013f,0.349449992f,0.354530007f,0.35958001f,0.364630014f,0.369720012f,0.374870002f,0.380080014f,0.385340005f,0.390639991f,0.395990014f,0.401380002f,0.406789988f,0.412220001f,0.417679995f,0.423139989f,0.428609997f,0.434069991f,0.439500004f,0.444900006f,0.45025f,0.455529988f,0.46074f,0.465849996f,0.470860004f,0.475749999f,0.480509996f,0.485130012f,0.489630014f,0.493990004f,0.49823001f,0.502340019f,0.50632f,0.510169983f,0.513899982f,0.517509997f,0.521000028f,0.524360001f,0.527610004f,0.530749977f,0.533770025f,0.536689997f,0.539499998f,0.542209983f,0.544820011f,0.547330022f,0.54974997f,0.552070022f,0.55430001f,0.556439996f,0.558470011f,0.560410023f,0.562259972f,0.56400001f,0.565649986f,0.567200005f,0.568650007f,0.569989979f,0.571240008f,0.572369993f,0.573400021f,0.574320018f,0.575119972f,0.575810015f,0.576380014f,0.576830029f,0.577160001f,0.577359974f,0.577449977f,0.577400029f,0.577229977f,0.576929986f,0.576499999f,0.575929999f,0.575240016f,0.574410021f,0.573450029f,0.572340012f,0.571089983f,0.569700003f,0.568149984f,0.56645f,0.564589977f,0.562560022f,0.560370028f,0.558009982f,0.55546999f,0.552760005f,0.549880028f,0.546819985f,0.543600023f,0.540199995f,0.536639988f,0.532920003f,0.529020011f,0.524969995f,0.52076f,0.516390026f,0.511900008f,0.507279992f,0.502560019f,0.49774f,0.492839992f,0.487870008f,0.482859999f,0.477800012f,0.472719997f,0.467619985f,0.46250999f,0.457399994f,0.452289999f,0.447210014f,0.442149997f,0.437119991f,0.432139993f,0.42719999f,0.422320008f,0.417499989f,0.412750006f,0.408060014f,0.403439999f,0.398880005f,0.394400001f,0.389990002f,0.385659993f,0.381399989f,0.377220005f,0.37312001f,0.369100004f,0.365150005f,0.36127001f,0.357470006f,0.353729993f,0.350050002f,0.346439987f,0.342889994f,0.339399993f,0.335970014f,0.332619995f,0.329329997f,0.326119989f,0.32299f,0.319950014f,0.317000002f,0.314139992f,0.311379999f,0.308719993f,0.306160003f,0.303689986f,0.301319987f,0.299030006f,0.296829998f,0.294699997f,0.292659998f,0.290679991f,0.28876999f,0.286929995f,0.285149992f,0.28343001f,0.281789988f,0.280209988f,0.27869001f,0.277249992f,0.275869995f,0.274569988f,0.273330003f,0.272159994f,0.271070004f,0.270040005f,0.269089997f,0.26820001f,0.267379999f,0.266629994f,0.265949994f,0.26534f,0.264789999f,0.264310002f,0.263900012f,0.263550013f,0.263280004f,0.263069987f,0.262930006f,0.262849987f,0.262849987f,0.262910008f,0.263040006f,0.26324001f,0.263500005f,0.263819993f,0.264200002f,0.264620006f,0.265080005f,0.265590012f,0.26613f,0.266689986f,0.267280012f,0.267890006f,0.268519998f,0.269160002f,0.269829988f,0.270520002f,0.271239996f,0.271979988f,0.27274999f,0.273550004f,0.274370015f,0.275220007f,0.276109993f,0.277009994f,0.277940005f,0.278899997f,0.279870003f,0.280860007f,0.281859994f,0.282869995f,0.283899993f,0.284940004f,0.285979986f,0.287039995f,0.288120002f,0.289209992f,0.290329993f,0.291480005f,0.292650014f,0.293850005f,0.295080006f,0.296350002f,0.297650009f,0.298990011f,0.300370008f,0.301779985f,0.303229988f,0.304720014f,0.306230009f,0.307790011f,0.309379995f,0.311010003f,0.312669992f,0.314390004f,0.31615001f,0.317959994f,0.319840014f,0.321779996f,0.32378f,0.325859994f,0.328020006f,0.330260009f,0.33258f,0.334980011f,0.337469995f,0.340039998f,0.342700005f,0.34544f,0.348259985f,0.351170003f,0.354160011f,0.357239991f,0.360410005f,0.363669991f,0.367020011f,0.370480001f,0.374049991f,0.377719998f,0.38150999f,0.385410011f,0.389429986f,0.39357999f,0.397839993f,0.402229995f,0.406720012f,0.411330014f,0.416040003f,0.420850009f,0.425760001f,0.43077001f,0.435860008f,0.441040009f,0.4463f,0.451649994f,0.457080007f,0.462599993f,0.468190014f,0.473859996f,0.479609996f,0.485439986f,0.491340011f,0.497319996f,0.503369987f,0.509490013f,0.515690029f,0.52196002f,0.528299987f,0.53470999f,0.541190028f,0.547730029f,0.554350019f,0.561029971f,0.567759991f,0.574540019f,0.581340015f,0.588150024f,0.594959974f,0.601750016f,0.608519971f,0.615239978f,0.621909976f,0.628509998f,0.635039985f,0.641489983f,0.647880018f,0.654190004f,0.660430014f,0.666589975f,0.67268002f,0.678690016f,0.684629977f,0.690490007f,0.696259975f,0.70194f,0.707520008f,0.712989986f,0.718349993f,0.723569989f,0.728670001f,0.733619988f,0.738430023f,0.74308002f,0.747590005f,0.751950026f,0.756179988f,0.760290027f,0.764280021f,0.768169999f,0.77196002f,0.775650024f,0.779269993f,0.782809973f,0.786270022f,0.789659977f,0.792949975f,0.796150029f,0.799250007f,0.802259982f,0.805149972f,0.807940006f,0.810609996f,0.813160002f,0.815609992f,0.81795001f,0.820219994f,0.822409987f,0.824530005f,0.826610029f,0.828649998f,0.830669999f,0.832669973f,0.834659994f,0.836629987f,0.838540018f,0.840380013f,0.842109978f,0.843720019f,0.845179975f,0.846459985f,0.847540021f,0.848389983f,0.848999977f,0.84938997f,0.849600017f,0.849640012f,0.849569976f,0.84938997f,0.849160016f,0.848890007f,0.848630011f,0.848389983f,0.848209977f,0.848089993f,0.848020017f,0.847989976f,0.84799999f,0.848039985f,0.848100007f,0.84819001f,0.848290026f,0.848389983f,0.84849f,0.848590016f,0.848680019f,0.848739982f,0.848779976f,0.84878999f,0.848760009f,0.848689973f,0.848569989f};
static const float REF_CES81[400] = {0.120669998f,0.131180003f,0.141179994f,0.152590007f,0.164169997f,0.176019996f,0.187220007f,0.199450001f,0.211099997f,0.222000003f,0.232979998f,0.242679998f,0.251120001f,0.259719998f,0.267250001f,0.274470001f,0.281399995f,0.288430005f,0.294010013f,0.299479991f,0.304419994f,0.308950007f,0.313560009f,0.317470014f,0.320710003f,0.323570013f,0.32675001f,0.329860002f,0.332419991f,0.335020006f,0.336820006f,0.338770002f,0.34059f,0.341930002f,0.343519986f,0.345010012f,0.346320003f,0.346650004f,0.346590012f,0.34702f,0.347629994f,0.348340005f,0.348399997f,0.348589987f,0.349460006f,0.350690007f,0.352120012f,0.352869987f,0.353689998f,0.354779989f,0.354999989f,0.354680002f,0.354279995f,0.354339987f,0.354209989f,0.352710009f,0.351000011f,0.34939f,0.348479986f,0.347200006f,0.345189989f,0.344069988f,0.342979997f,0.341419995f,0.33961001f,0.338140011f,0.337689996f,0.337119997f,0.336219996f,0.334679991f,0.333350003f,0.332489997f,0.330729991f,0.328929991f,0.327459991f,0.32585001f,0.323599994f,0.32111001f,0.318459988f,0.315730006f,0.313430011f,0.311260015f,0.309130013f,0.307179987f,0.305510014f,0.302960008f,0.301299989f,0.299910009f,0.297989994f,0.2958f,0.293430001f,0.29073f,0.287910014f,0.285030007f,0.28233999f,0.27906999f,0.276630014f,0.272929996f,0.268700004f,0.265049994f,0.261790007f,0.258709997f,0.25582999f,0.252790004f,0.249640003f,0.246439993f,0.243440002f,0.239989996f,0.236829996f,0.233390003f,0.230069995f,0.227109998f,0.224360004f,0.221760005f,0.219180003f,0.216519997f,0.213819996f,0.210879996f,0.208179995f,0.205540001f,0.203559995f,0.201230004f,0.198760003f,0.196060002f,0.19303f,0.189940006f,0.186949998f,0.184029996f,0.181060001f,0.17791f,0.174810007f,0.171829998f,0.169009998f,0.165340006f,0.161709994f,0.158380002f,0.155090004f,0.151549995f,0.147709996f,0.144160002f,0.140459999f,0.136570007f,0.132730007f,0.129020005f,0.125990003f,0.123149998f,0.120250002f,0.117299996f,0.114569999f,0.11248f,0.110689998f,0.109470002f,0.108549997f,0.107620001f,0.106899999f,0.106179997f,0.105350003f,0.104460001f,0.104079999f,0.103799999f,0.103100002f,0.102509998f,0.102069996f,0.101669997f,0.10097f,0.0999730006f,0.0991950035f,0.0986410007f,0.0987190008f,0.0982149988f,0.0974859968f,0.0966140032f,0.0952619985f,0.0937739983f,0.0923620015f,0.0912130028f,0.0898990035f,0.0883409977f,0.0866419971f,0.0842489973f,0.0821129978f,0.0802820027f,0.0789140016f,0.0779490024f,0.0764259994f,0.0743950009f,0.072563f,0.0710999966f,0.0699710026f,0.0687400028f,0.0679939985f,0.0674289986f,0.0670889989f,0.0667259991f,0.0666930005f,0.0673779994f,0.068152003f,0.0687849969f,0.0694139972f,0.0702489987f,0.0717049986f,0.0734900013f,0.075620003f,0.0777060017f,0.0792419985f,0.0812409967f,0.0831520036f,0.0849340037f,0.0865700021f,0.088421002f,0.0902410001f,0.0916360021f,0.0926840007f,0.0935290009f,0.094517f,0.0962999985f,0.0977429971f,0.0986569971f,0.0996999964f,0.101020001f,0.102329999f,0.103419997f,0.104230002f,0.104549997f,0.105120003f,0.105169997f,0.104520001f,0.103220001f,0.101899996f,0.10114f,0.100100003f,0.0989700034f,0.0979159996f,0.0973230004f,0.0964789987f,0.0953549966f,0.0949200019f,0.0954969972f,0.0964789987f,0.0980769992f,0.0997809991f,0.101520002f,0.104489997f,0.10712f,0.10966f,0.113679998f,0.116939999f,0.12071f,0.124770001f,0.128830001f,0.132970005f,0.137500003f,0.144020006f,0.149499997f,0.15535f,0.161669999f,0.167590007f,0.174539998f,0.181700006f,0.188800007f,0.196160004f,0.204359993f,0.212650001f,0.219980001f,0.228609994f,0.238979995f,0.249540001f,0.260170013f,0.270999998f,0.28185001f,0.291729987f,0.302969992f,0.314029992f,0.324840009f,0.335000008f,0.34345001f,0.350870013f,0.358249992f,0.365260005f,0.37191999f,0.37834999f,0.38617f,0.392150015f,0.396789998f,0.400290012f,0.404029995f,0.408800006f,0.413239986f,0.417089999f,0.42098999f,0.424719989f,0.427289993f,0.428389996f,0.429690003f,0.432539999f,0.43599999f,0.438769996f,0.44095999f,0.442970008f,0.444770008f,0.446740001f,0.448850006f,0.450910002f,0.453060001f,0.45499f,0.455909997f,0.456710011f,0.458110005f,0.459470004f,0.460260004f,0.460759997f,0.461059988f,0.461629987f,0.46261999f,0.463319987f,0.461650014f,0.46351999f,0.469319999f,0.470429987f,0.465310007f,0.465310007f,0.468510002f,0.46924001f,0.469980001f,0.470710009f,0.471450001f,0.472180009f,0.472920001f,0.473659992f,0.47439f,0.475129992f,0.475870013f,0.476599991f,0.477340013f,0.478069991f,0.478810012f,0.479550004f,0.480280012f,0.481020004f,0.481759995f,0.482499987f,0.483229995f,0.483969986f,0.484710008f,0.48545f,0.486180007f,0.486919999f,0.487659991f,0.488400012f,0.48912999f,0.489870012f,0.490610003f,0.491349995f,0.492080003f,0.492819995f,0.493559986f,0.494300008f,0.495039999f,0.495770007f,0.496509999f,0.497249991f,0.497990012f,0.498730004f,0.499460012f,0.500199974f,0.500940025f,0.501680017f,0.502420008f,0.503149986f,0.503889978f,0.504630029f,0.505370021f,0.506110013f,0.506839991f,0.507579982f,0.508319974f,0.509060025f,0.509800017f,0.510529995f,0.511269987f,0.512009978f,0.51275003f,0.513480008f,0.514219999f,0.514959991f,0.515699983f,0.51643002f,0.517170012f,0.517910004f,0.518649995f,0.519379973f,0.520120025f,0.520860016f,0.521589994f,0.522329986f,0.523069978f,0.523800015f,0.524540007f,0.525279999f,0.526009977f};
static const float REF_CES82[400] = {0.707719982f,0.709190011f,0.710650027f,0.712119997f,0.713569999f,0.715030015f,0.716470003f,0.717920005f,0.719359994f,0.720790029f,0.722220004f,0.723640025f,0.72507f,0.726480007f,0.727890015f,0.729300022f,0.730700016f,0.73210001f,0.733500004f,0.734879971f,0.736500025f,0.737519979f,0.738799989f,0.7403f,0.741970003f,0.743770003f,0.745649993f,0.747579992f,0.74950999f,0.751399994f,0.753199995f,0.754880011f,0.756439984f,0.757910013f,0.759280026f,0.760590017f,0.761849999f,0.763059974f,0.764240026f,0.76542002f,0.766600013f,0.767799973f,0.768999994f,0.770210028f,0.771409988f,0.772589982f,0.773739994f,0.774860024f,0.775929987f,0.776950002f,0.777899981f,0.778779984f,0.779600024f,0.780350029f,0.78105998f,0.781710029f,0.782329977f,0.782899976f,0.783460021f,0.783990026f,0.784500003f,0.785000026f,0.785489976f,0.785960019f,0.786409974f,0.786819994f,0.78719002f,0.787519991f,0.787810028f,0.788030028f,0.788200021f,0.788299978f,0.788339972f,0.788309991f,0.788209975f,0.788039982f,0.787810028f,0.787509978f,0.787140012f,0.78670001f,0.786199987f,0.785629988f,0.784979999f,0.784269989f,0.783479989f,0.782609999f,0.781669974f,0.78065002f,0.779550016f,0.778370023f,0.777100027f,0.775749981f,0.774320006f,0.772819996f,0.771260023f,0.769640028f,0.76797998f,0.766269982f,0.764540017f,0.762780011f,0.760999978f,0.759209991f,0.75740999f,0.755590022f,0.753740013f,0.751860023f,0.749949992f,0.747990012f,0.745980024f,0.743920028f,0.74180001f,0.73961997f,0.737380028f,0.735090017f,0.73277998f,0.730440021f,0.728089988f,0.725740016f,0.723399997f,0.721090019f,0.718800008f,0.716549993f,0.714349985f,0.712180018f,0.710049987f,0.70796001f,0.70589f,0.703859985f,0.701849997f,0.699859977f,0.697899997f,0.695959985f,0.694029987f,0.692120016f,0.690230012f,0.688340008f,0.686469972f,0.684589982f,0.682730019f,0.680859983f,0.67900002f,0.677129984f,0.675270021f,0.673430026f,0.671599984f,0.669799984f,0.668039978f,0.666320026f,0.664650023f,0.663039982f,0.661499977f,0.660030007f,0.658630013f,0.657310009f,0.656040013f,0.654839993f,0.653710008f,0.652629972f,0.651600003f,0.650619984f,0.649699986f,0.648819983f,0.648000002f,0.647230029f,0.646520019f,0.64586997f,0.645299971f,0.644800007f,0.644379973f,0.644050002f,0.64380002f,0.643649995f,0.643580019f,0.643589973f,0.643670022f,0.643809974f,0.643999994f,0.644230008f,0.644500017f,0.644789994f,0.645099998f,0.645420015f,0.645749986f,0.646080017f,0.646409988f,0.646740019f,0.647069991f,0.647390008f,0.647710025f,0.648010015f,0.648299992f,0.648570001f,0.64884001f,0.649089992f,0.64933002f,0.649559975f,0.649789989f,0.650020003f,0.650240004f,0.650470018f,0.650699973f,0.650940001f,0.651180029f,0.651440024f,0.651709974f,0.65200001f,0.652310014f,0.652639985f,0.652999997f,0.65338999f,0.653800011f,0.654250026f,0.654720008f,0.655219972f,0.655749977f,0.656289995f,0.656840026f,0.657400012f,0.657970011f,0.658529997f,0.659099996f,0.659659982f,0.660210013f,0.660740018f,0.661270022f,0.661769986f,0.662249982f,0.662710011f,0.663139999f,0.663529992f,0.663900018f,0.664229989f,0.664529979f,0.664799988f,0.66505003f,0.665279984f,0.665499985f,0.665700018f,0.665899992f,0.666100025f,0.666299999f,0.666509986f,0.666719973f,0.666939974f,0.667159975f,0.667370021f,0.667590022f,0.667800009f,0.668009996f,0.66821003f,0.66839999f,0.668579996f,0.668780029f,0.669009984f,0.669290006f,0.669659972f,0.670130014f,0.670729995f,0.671469986f,0.672389984f,0.673500001f,0.674820006f,0.676349998f,0.678070009f,0.679960012f,0.682009995f,0.684210002f,0.686540008f,0.68900001f,0.691550016f,0.694199979f,0.696929991f,0.699739993f,0.702629983f,0.705619991f,0.708710015f,0.711899996f,0.715200007f,0.718609989f,0.722140014f,0.725799978f,0.729579985f,0.73348999f,0.737510026f,0.741649985f,0.745880008f,0.750220001f,0.754639983f,0.759150028f,0.763740003f,0.768400013f,0.773119986f,0.777880013f,0.782649994f,0.787410021f,0.792129993f,0.79677999f,0.801339984f,0.805779994f,0.810079992f,0.814199984f,0.818130016f,0.82190001f,0.825540006f,0.829069972f,0.832530022f,0.835950017f,0.839370012f,0.842809975f,0.846310019f,0.849900007f,0.853590012f,0.857339978f,0.861079991f,0.864740014f,0.868260026f,0.871569991f,0.874599993f,0.877300024f,0.879589975f,0.881399989f,0.884130001f,0.886439979f,0.888719976f,0.890950024f,0.893149972f,0.895299971f,0.897419989f,0.899500012f,0.901539981f,0.903550029f,0.905520022f,0.90745002f,0.909349978f,0.911210001f,0.913039982f,0.914830029f,0.916589975f,0.91832f,0.920009971f,0.92167002f,0.923300028f,0.924899995f,0.926469982f,0.928009987f,0.929520011f,0.930989981f,0.932439983f,0.933870018f,0.935259998f,0.936630011f,0.937969983f,0.939279974f,0.940569997f,0.941829979f,0.943069994f,0.944280028f,0.945469975f,0.946630001f,0.94777f,0.948889971f,0.949980021f,0.951049984f,0.952099979f,0.953130007f,0.954140007f,0.955129981f,0.956089973f,0.957040012f,0.957970023f,0.958880007f,0.959770024f,0.960640013f,0.961489975f,0.962329984f,0.963140011f,0.963949978f,0.964730024f,0.965499997f,0.966250002f,0.96697998f,0.967700005f,0.968410015f,0.969099998f,0.969770014f,0.97043997f,0.971080005f,0.97171998f,0.972339988f,0.972940028f,0.973540008f,0.974120021f,0.97469002f,0.975239992f,0.975790024f,0.976320028f,0.976840019f,0.977349997f,0.97785002f,0.97834003f};
static const float REF_CES83[400] = {0.563489974f,0.565110028f,0.566720009f,0.56832999f,0.569939971f,0.571539998f,0.573149979f,0.574750006f,0.576359987f,0.577960014f,0.579559982f,0.581149995f,0.582750022f,0.58434999f,0.585940003f,0.587530017f,0.589119971f,0.590699971f,0.592289984f,0.593869984f,0.595700026f,0.596889973f,0.598380029f,0.600090027f,0.601979971f,0.603959978f,0.605979979f,0.607980013f,0.609889984f,0.61164999f,0.613200009f,0.614489973f,0.61552f,0.616330028f,0.616949975f,0.617389977f,0.617690027f,0.617879987f,0.61796999f,0.618009984f,0.617999971f,0.617980003f,0.617940009f,0.617869973f,0.617770016f,0.617619991f,0.617420018f,0.617150009f,0.616819978f,0.616400003f,0.61589998f,0.6153f,0.61461997f,0.613860011f,0.613030016f,0.612129986f,0.611190021f,0.610210001f,0.609189987f,0.608150005f,0.60710001f,0.606040001f,0.604960024f,0.603860021f,0.602710009f,0.601520002f,0.600269973f,0.598940015f,0.597519994f,0.596019983f,0.594399989f,0.592670023f,0.590830028f,0.58890003f,0.586870015f,0.584779978f,0.582620025f,0.580420017f,0.578170002f,0.575890005f,0.573599994f,0.57130003f,0.568970025f,0.566609979f,0.564199984f,0.561730027f,0.559180021f,0.556529999f,0.553780019f,0.550909996f,0.547900021f,0.544749975f,0.541469991f,0.538089991f,0.534630001f,0.531109989f,0.527570009f,0.52403003f,0.520500004f,0.517019987f,0.513599992f,0.51027f,0.507019997f,0.503849983f,0.500729978f,0.497660011f,0.494630009f,0.491629988f,0.488649994f,0.485680014f,0.48269999f,0.479710013f,0.476709992f,0.473710001f,0.470710009f,0.467709988f,0.464729995f,0.461760014f,0.458810002f,0.45589f,0.453000009f,0.450139999f,0.447329998f,0.444559991f,0.441830009f,0.439159989f,0.436540008f,0.433979988f,0.431490004f,0.429060012f,0.426699996f,0.424409986f,0.422199994f,0.420049995f,0.417959988f,0.415919989f,0.413940012f,0.412f,0.410100013f,0.408230007f,0.406399995f,0.404590011f,0.402819991f,0.401069999f,0.399360001f,0.397689998f,0.396050006f,0.394470006f,0.392930001f,0.391440004f,0.389999986f,0.388619989f,0.387300014f,0.386049986f,0.384880006f,0.383780003f,0.382770002f,0.381850004f,0.381029993f,0.380309999f,0.379700005f,0.379200011f,0.378809988f,0.378509998f,0.378300011f,0.378170013f,0.378100008f,0.378089994f,0.378120005f,0.378199995f,0.378300011f,0.378419995f,0.378580004f,0.37876001f,0.379000008f,0.379280001f,0.379629999f,0.380050004f,0.380540013f,0.381119996f,0.381799996f,0.382580012f,0.383439988f,0.384389997f,0.385390013f,0.386429995f,0.387510002f,0.388599992f,0.389679998f,0.390760005f,0.391799986f,0.392800003f,0.393759996f,0.39467001f,0.395550013f,0.396389991f,0.397199988f,0.397969991f,0.398710012f,0.399419993f,0.400099993f,0.400759995f,0.401389986f,0.401989996f,0.402550012f,0.40309f,0.403589994f,0.404049993f,0.40448001f,0.40485999f,0.405200005f,0.405499995f,0.405750006f,0.405970007f,0.406150013f,0.406300008f,0.406419992f,0.406520009f,0.406599998f,0.406659991f,0.406699985f,0.406729996f,0.406749994f,0.406760007f,0.406749994f,0.406720012f,0.406659991f,0.406590015f,0.406489998f,0.40636f,0.406199992f,0.406010002f,0.405790001f,0.405550003f,0.405279994f,0.404989988f,0.404680014f,0.404350013f,0.404009998f,0.403659999f,0.403299987f,0.402929991f,0.402579993f,0.402260005f,0.401980013f,0.401769996f,0.401650012f,0.401630014f,0.401740015f,0.401989996f,0.402399987f,0.402990013f,0.403750002f,0.404680014f,0.405770004f,0.407029986f,0.408450007f,0.410019994f,0.411729991f,0.413599998f,0.415600002f,0.417739987f,0.420020014f,0.422450006f,0.425040007f,0.427789986f,0.430709988f,0.433800012f,0.437079996f,0.440539986f,0.444200009f,0.448060006f,0.452109993f,0.456330001f,0.460720003f,0.465259999f,0.469940007f,0.474750012f,0.479669988f,0.484690011f,0.489800006f,0.494989991f,0.500270009f,0.505630016f,0.511080027f,0.516640007f,0.522300005f,0.528069973f,0.533949971f,0.539960027f,0.54610002f,0.552359998f,0.558709979f,0.565100014f,0.571479976f,0.577809989f,0.584029973f,0.590110004f,0.596000016f,0.601639986f,0.606999993f,0.612039983f,0.616819978f,0.621399999f,0.625840008f,0.63023001f,0.634620011f,0.639090002f,0.64368999f,0.648509979f,0.653599977f,0.659009993f,0.664629996f,0.670360029f,0.676069975f,0.681620002f,0.686909974f,0.691810012f,0.696179986f,0.699919999f,0.702899992f,0.707459986f,0.711359978f,0.715229988f,0.719060004f,0.722869992f,0.726639986f,0.730390012f,0.734089971f,0.737770021f,0.741410017f,0.745029986f,0.748600006f,0.752149999f,0.755659997f,0.759130001f,0.762570024f,0.765980005f,0.769360006f,0.772700012f,0.776000023f,0.779269993f,0.782509983f,0.785709977f,0.788879991f,0.792020023f,0.795109987f,0.798179984f,0.801209986f,0.804210007f,0.807169974f,0.810100019f,0.81299001f,0.815850019f,0.818669975f,0.821470022f,0.824220002f,0.826950014f,0.829639971f,0.832300007f,0.834919989f,0.83750999f,0.840070009f,0.842589974f,0.845089972f,0.847549975f,0.849979997f,0.852370024f,0.854740024f,0.857070029f,0.859369993f,0.861639977f,0.863879979f,0.86609f,0.86826998f,0.870419979f,0.872539997f,0.874629974f,0.87668997f,0.878719985f,0.880720019f,0.882690012f,0.884639978f,0.886560023f,0.888440013f,0.890309989f,0.892139971f,0.893949986f,0.895730019f,0.897480011f,0.899209976f,0.90091002f,0.902589977f,0.904240012f,0.905860007f,0.907459974f,0.909039974f,0.910589993f,0.912119985f,0.913630009f};
static const float REF_CES84[400] = {0.0337539986f,0.0341060013f,0.0344629996f,0.0348230004f,0.0351860002f,0.0355530009f,0.0359239988f,0.0362990014f,0.0366769992f,0.0370590016f,0.0374450013f,0.0378349982f,0.0382289998f,0.0386260003f,0.0390280001f,0.0394340008f,0.0398430005f,0.0402569994f,0.0406749994f,0.0410970002f,0.0413829982f,0.0418840013f,0.042374f,0.0428539999f,0.0433260016f,0.0437909998f,0.0442489982f,0.0447029993f,0.0451529995f,0.0456009991f,0.0460469984f,0.0464939997f,0.0469419993f,0.0473919995f,0.0478460006f,0.048303999f,0.0487690009f,0.0492409989f,0.0497209989f,0.0502110012f,0.0507120006f,0.0512240008f,0.0517459996f,0.0522749983f,0.0528080016f,0.0533440001f,0.0538799986f,0.0544129983f,0.0549409986f,0.0554610007f,0.0559710003f,0.0564690009f,0.0569519997f,0.0574189983f,0.0578670017f,0.0582929999f,0.0586970001f,0.059076f,0.0594270006f,0.0597499982f,0.0600400008f,0.0602979995f,0.0605250001f,0.0607240014f,0.0608960018f,0.0610449985f,0.0611729994f,0.0612829998f,0.0613779984f,0.0614590012f,0.0615289994f,0.061590001f,0.0616410002f,0.0616800003f,0.0617039986f,0.0617120005f,0.0617009997f,0.0616689995f,0.0616150014f,0.0615359992f,0.0614299998f,0.061294999f,0.0611350015f,0.0609529987f,0.0607520007f,0.0605360009f,0.0603079982f,0.0600720011f,0.0598299988f,0.0595870018f,0.0593460016f,0.0591100007f,0.0588850006f,0.0586769991f,0.058490999f,0.0583329983f,0.0582079999f,0.0581220016f,0.058081001f,0.0580900013f,0.0581550002f,0.0582790002f,0.0584580004f,0.058685001f,0.0589529984f,0.0592550002f,0.0595830008f,0.0599329993f,0.0602950007f,0.0606640019f,0.0610329993f,0.0613939986f,0.0617440008f,0.0620759986f,0.0623870008f,0.0626699999f,0.0629220009f,0.0631370023f,0.0633110031f,0.0634379983f,0.0635140017f,0.0635349974f,0.063504003f,0.0634260029f,0.063304998f,0.0631460026f,0.0629519969f,0.062729001f,0.0624799989f,0.0622109994f,0.0619259998f,0.0616270006f,0.0613150001f,0.060986001f,0.0606390014f,0.0602720007f,0.0598820001f,0.0594680011f,0.0590270013f,0.0585560016f,0.0580549985f,0.0575219989f,0.0569580011f,0.0563669987f,0.0557520017f,0.0551149994f,0.0544589981f,0.0537870005f,0.0531020015f,0.0524070002f,0.0517040007f,0.0509970002f,0.0502859987f,0.0495719984f,0.0488560013f,0.0481380001f,0.0474199988f,0.0467020012f,0.0459860004f,0.0452710018f,0.0445589982f,0.0438500009f,0.0431459993f,0.0424470007f,0.0417560004f,0.0410719998f,0.0403969996f,0.0397320017f,0.0390789993f,0.0384379998f,0.0378100015f,0.0371979997f,0.036603f,0.0360289998f,0.0354790017f,0.0349560007f,0.0344620012f,0.0340019986f,0.0335769989f,0.0331920013f,0.0328480005f,0.0325499997f,0.0322940014f,0.032079f,0.0319040008f,0.031764999f,0.0316619985f,0.0315909982f,0.0315520018f,0.0315419994f,0.0315579996f,0.0316010006f,0.0316740014f,0.0317820013f,0.0319290012f,0.0321220011f,0.0323650017f,0.032664001f,0.0330220014f,0.033445999f,0.0339399986f,0.0345080011f,0.0351449996f,0.0358470008f,0.036607001f,0.0374189988f,0.0382790007f,0.0391810015f,0.0401180014f,0.0410859995f,0.0420779996f,0.0430889986f,0.0441100001f,0.0451349989f,0.0461539999f,0.0471599996f,0.0481440015f,0.0490989983f,0.0500160009f,0.0508869998f,0.0517040007f,0.0524609983f,0.053160999f,0.0538089983f,0.0544079989f,0.0549639985f,0.0554820001f,0.055966001f,0.0564199984f,0.0568509996f,0.0572610013f,0.0576560013f,0.0580350012f,0.0583980009f,0.0587450005f,0.0590739995f,0.0593850017f,0.0596770011f,0.0599500015f,0.0602039993f,0.0604370013f,0.0606499985f,0.0608429983f,0.0610169992f,0.0611749999f,0.0613159984f,0.061443001f,0.0615560003f,0.0616570003f,0.0617469996f,0.0618270002f,0.0618980005f,0.0619629994f,0.062024001f,0.0620829985f,0.0621419996f,0.0622039996f,0.062270999f,0.0623439997f,0.0624269992f,0.0625210032f,0.062628001f,0.0627470016f,0.062876001f,0.0630140007f,0.063157998f,0.0633059964f,0.0634569973f,0.0636100024f,0.0637610033f,0.0639109984f,0.0640560016f,0.0641949996f,0.0643289983f,0.0644550025f,0.0645729974f,0.064681001f,0.0647789985f,0.0648659989f,0.0649409965f,0.0650020018f,0.0650499985f,0.0650840029f,0.0651049986f,0.0651160032f,0.0651170015f,0.0651080012f,0.065090999f,0.0650670007f,0.0650369972f,0.0650020018f,0.064962998f,0.0649209991f,0.0648749992f,0.0648259968f,0.0647760034f,0.0647239983f,0.0646699965f,0.0646160021f,0.064561002f,0.0645060018f,0.064452f,0.0643969998f,0.0643419996f,0.0642869994f,0.0642300025f,0.0641710013f,0.0641110018f,0.0640470013f,0.0639809966f,0.0639109984f,0.0638369992f,0.0637580007f,0.0636750013f,0.0635859966f,0.0634920001f,0.063391f,0.0632840022f,0.0631700009f,0.0630479977f,0.0629179999f,0.0629210025f,0.0628330037f,0.0627460033f,0.0626590028f,0.0625720024f,0.0624849983f,0.0623980016f,0.0623110011f,0.0622240007f,0.0621379986f,0.0620509982f,0.0619649999f,0.0618790016f,0.0617929995f,0.0617070012f,0.0616209991f,0.0615350008f,0.0614500009f,0.0613639988f,0.0612789989f,0.0611930005f,0.0611080006f,0.0610230006f,0.0609380007f,0.0608530007f,0.0607689992f,0.0606839992f,0.0605989993f,0.0605150014f,0.0604309998f,0.0603469983f,0.0602619983f,0.0601780005f,0.060095001f,0.0600109994f,0.0599270016f,0.0598439984f,0.0597600006f,0.0596770011f,0.0595940016f,0.0595109984f,0.059427999f,0.0593449995f,0.059262f,0.0591790006f,0.0590969995f,0.059014f,0.0589319989f,0.0588500015f,0.0587680005f,0.0586859994f,0.0586039983f,0.0585220009f,0.0584399998f,0.0583579987f,0.0582769997f,0.0581960008f,0.0581139997f,0.0580330007f,0.0579520017f,0.057870999f,0.05779f,0.0577099994f,0.0576290004f,0.0575480014f,0.0574680008f,0.0573880002f,0.0573070012f,0.0572270006f,0.057147f,0.0570669994f,0.0569880009f,0.0569080003f,0.0568279997f,0.0567490011f,0.0566699989f,0.0565899983f,0.0565109998f,0.0564320013f};
static const float REF_CES85[400] = {0.0142489998f,0.0136010004f,0.0116560003f,0.0116800005f,0.0123979999f,0.0129150003f,0.0128809996f,0.0135810003f,0.0142890001f,0.0152390003f,0.0173140001f,0.0189849995f,0.0199900009f,0.0221699998f,0.0231810007f,0.0244369991f,0.0264410004f,0.0292099994f,0.0323279984f,0.0356560014f,0.0383099988f,0.0399640016f,0.0419760011f,0.0442400016f,0.0466450006f,0.0493949987f,0.0527979992f,0.0563770011f,0.0590119995f,0.0612419993f,0.0632430017f,0.0658409968f,0.069234997f,0.0725879967f,0.0761659965f,0.0795520023f,0.0826719999f,0.0853839964f,0.0884179994f,0.0918599963f,0.0952299982f,0.0989430025f,0.101949997f,0.104699999f,0.108479999f,0.112329997f,0.116269998f,0.120569997f,0.124480002f,0.128220007f,0.131659999f,0.135460004f,0.139269993f,0.143669993f,0.14756f,0.149499997f,0.151390001f,0.153380007f,0.155190006f,0.156719998f,0.158199996f,0.160290003f,0.161459997f,0.161589995f,0.16155f,0.162750006f,0.165140003f,0.166730002f,0.168369994f,0.169609994f,0.171069995f,0.171859995f,0.172030002f,0.173020005f,0.174319997f,0.174960002f,0.174799994f,0.174970001f,0.175520003f,0.174999997f,0.173950002f,0.173150003f,0.173480004f,0.174219996f,0.174400002f,0.173700005f,0.174109995f,0.174470007f,0.173730001f,0.173010007f,0.17216f,0.171709999f,0.171269998f,0.169929996f,0.168449998f,0.167270005f,0.167119995f,0.165619999f,0.163550004f,0.16178f,0.160070002f,0.159260005f,0.158500001f,0.157780007f,0.156920001f,0.155760005f,0.154479995f,0.152970001f,0.151999995f,0.150700003f,0.149269998f,0.147949994f,0.14655f,0.145620003f,0.144569993f,0.143209994f,0.141729996f,0.139730006f,0.137649998f,0.135450006f,0.13436f,0.133269995f,0.132070005f,0.130439997f,0.128370002f,0.126440004f,0.125070006f,0.123829998f,0.1228f,0.121919997f,0.121229999f,0.120180003f,0.118940003f,0.11733f,0.116429999f,0.115989998f,0.115199998f,0.113980003f,0.112750001f,0.11152f,0.110040002f,0.108309999f,0.10684f,0.105930001f,0.105250001f,0.104000002f,0.102410004f,0.100769997f,0.0993840024f,0.0983249992f,0.0971589983f,0.0960759968f,0.0954049975f,0.094821997f,0.0942670032f,0.0935930014f,0.0931809992f,0.0929199979f,0.0928300023f,0.0926389992f,0.0921339989f,0.0923049971f,0.092678003f,0.093016997f,0.0930289999f,0.0926140025f,0.0921569988f,0.091279f,0.0906369984f,0.0904380009f,0.0906570032f,0.0908100009f,0.0903289989f,0.0898860022f,0.0895730034f,0.0890159979f,0.0887729973f,0.0888179988f,0.0891939998f,0.0892470032f,0.089068003f,0.0888760015f,0.0886090025f,0.0886240005f,0.0883599967f,0.0879179984f,0.0880440027f,0.0882650018f,0.0884200037f,0.0881439969f,0.0879409984f,0.087402001f,0.0866009966f,0.0862179995f,0.0858130008f,0.0858749971f,0.0857879966f,0.0856250003f,0.0850830004f,0.0847570002f,0.0846289992f,0.0844699964f,0.0847939998f,0.085620001f,0.0860119984f,0.0872519985f,0.0884039998f,0.0890450031f,0.0893099979f,0.0899749994f,0.0908749998f,0.0925109982f,0.0941089988f,0.0951289982f,0.0958829969f,0.0975809991f,0.0991090015f,0.0999609977f,0.100599997f,0.101520002f,0.102739997f,0.104079999f,0.105060004f,0.106250003f,0.107709996f,0.108740002f,0.108860001f,0.107989997f,0.107040003f,0.108159997f,0.109590001f,0.110490002f,0.110569999f,0.110689998f,0.111220002f,0.111709997f,0.111890003f,0.11248f,0.113779999f,0.11575f,0.11603f,0.116060004f,0.117559999f,0.119659998f,0.121610001f,0.122759998f,0.12432f,0.125599995f,0.126890004f,0.127910003f,0.129160002f,0.131510004f,0.135089993f,0.136549994f,0.137459993f,0.138260007f,0.139280006f,0.140279993f,0.14192f,0.143619999f,0.144639999f,0.145510003f,0.146009997f,0.146019995f,0.147029996f,0.150490001f,0.153659999f,0.156800002f,0.160009995f,0.163939998f,0.167850003f,0.172910005f,0.178570002f,0.184359998f,0.189099997f,0.192650005f,0.194600001f,0.196899995f,0.200189993f,0.203909993f,0.207839996f,0.212290004f,0.216580003f,0.220300004f,0.223869994f,0.227939993f,0.233119994f,0.238120005f,0.243819997f,0.248490006f,0.252550006f,0.256260008f,0.259640008f,0.26304999f,0.266579986f,0.269739985f,0.273160011f,0.277130008f,0.280979991f,0.283950001f,0.287369996f,0.290549994f,0.294450015f,0.298319995f,0.301660001f,0.304809988f,0.307440013f,0.309659988f,0.311930001f,0.314130008f,0.316300005f,0.318190008f,0.320520014f,0.322430015f,0.324189991f,0.324169993f,0.324539989f,0.328790009f,0.335869998f,0.338779986f,0.338779986f,0.340039998f,0.342290014f,0.344550014f,0.346810013f,0.349079996f,0.351359993f,0.35363999f,0.355930001f,0.358229995f,0.360540003f,0.36285001f,0.365159988f,0.367489994f,0.369819999f,0.372150004f,0.374489993f,0.376839995f,0.379189998f,0.381550014f,0.383920014f,0.386290014f,0.388660014f,0.391039997f,0.393429995f,0.395819992f,0.398220003f,0.400620013f,0.403019994f,0.405440003f,0.407849997f,0.410270005f,0.412690014f,0.415120006f,0.417549998f,0.419990003f,0.422430009f,0.424870014f,0.427320004f,0.429769993f,0.432229996f,0.434689999f,0.437150002f,0.439610004f,0.442079991f,0.444550008f,0.447019994f,0.449499995f,0.451970011f,0.454450011f,0.456939995f,0.459419996f,0.461910009f,0.464399993f,0.466890007f,0.469379991f,0.471870005f,0.474370003f,0.476859987f,0.479360014f,0.481860012f,0.484360009f,0.486860007f,0.489360005f,0.491860002f,0.49436f,0.496870011f,0.499370009f,0.501869977f,0.504369974f,0.506869972f,0.509379983f,0.511879981f,0.514379978f,0.516879976f,0.519379973f,0.521870017f,0.524370015f,0.526870012f,0.529359996f};
static const float REF_CES86[400] = {0.502520025f,0.504819989f,0.50711f,0.509410024f,0.511699975f,0.513999999f,0.516290009f,0.518580019f,0.52086997f,0.523169994f,0.525460005f,0.527740002f,0.530030012f,0.532320023f,0.534600019f,0.53688997f,0.539170027f,0.541450024f,0.543730021f,0.546010017f,0.546360016f,0.549520016f,0.552510023f,0.555339992f,0.558019996f,0.560559988f,0.562960029f,0.565240026f,0.567390025f,0.569429994f,0.571380019f,0.573220015f,0.574980021f,0.576659977f,0.578260005f,0.579810023f,0.58130002f,0.582740009f,0.584140003f,0.585510015f,0.586860001f,0.588190019f,0.589479983f,0.590699971f,0.591830015f,0.592840016f,0.593699992f,0.594399989f,0.594900012f,0.595170021f,0.595200002f,0.594969988f,0.594479978f,0.593770027f,0.592850029f,0.59175998f,0.590510011f,0.589139998f,0.587660015f,0.586099982f,0.584479988f,0.582830012f,0.581130028f,0.579389989f,0.577600002f,0.575749993f,0.573840022f,0.571860015f,0.569800019f,0.56765002f,0.565419972f,0.563090026f,0.560670018f,0.558160007f,0.555559993f,0.552869976f,0.550100029f,0.547240019f,0.544309974f,0.541299999f,0.538209975f,0.535059988f,0.531830013f,0.528530002f,0.525170028f,0.521740019f,0.518239975f,0.514689982f,0.511070013f,0.507399976f,0.503660023f,0.499879986f,0.49605f,0.49217999f,0.488279998f,0.484369993f,0.480450004f,0.476520002f,0.472609997f,0.468710005f,0.464839995f,0.461010009f,0.457210004f,0.453440011f,0.449699998f,0.445969999f,0.442270011f,0.43858999f,0.434920013f,0.43125999f,0.42761001f,0.423970014f,0.420320004f,0.416669995f,0.413010001f,0.409339994f,0.40564999f,0.401950002f,0.398220003f,0.394470006f,0.390679985f,0.386860013f,0.383020014f,0.379159987f,0.37529999f,0.371450007f,0.367610008f,0.363810003f,0.360040009f,0.356319994f,0.352649987f,0.349059999f,0.345539987f,0.342099994f,0.338750005f,0.335489988f,0.332329988f,0.329279989f,0.326330006f,0.323500007f,0.320780009f,0.318199992f,0.315730006f,0.313360006f,0.311089993f,0.308899999f,0.30678001f,0.304729998f,0.302729994f,0.300770015f,0.298839986f,0.296929985f,0.295029998f,0.29313001f,0.291209996f,0.289270014f,0.287290007f,0.285259992f,0.283179998f,0.281019986f,0.278789997f,0.276470006f,0.274069995f,0.271629989f,0.269140005f,0.266640007f,0.264149994f,0.261669993f,0.259240001f,0.256859988f,0.254559994f,0.252359986f,0.250270009f,0.24831f,0.246490002f,0.244829997f,0.243340001f,0.242050007f,0.240960002f,0.240099996f,0.239470005f,0.239089996f,0.238940001f,0.239010006f,0.239270002f,0.239690006f,0.240270004f,0.240970001f,0.241779998f,0.242679998f,0.243640006f,0.244650006f,0.245680004f,0.246720001f,0.247749999f,0.248750001f,0.249689996f,0.250559986f,0.251349986f,0.252029985f,0.252579987f,0.252979994f,0.253250003f,0.253390014f,0.253410012f,0.253309995f,0.253100008f,0.252799988f,0.252409995f,0.251929998f,0.25139001f,0.250779986f,0.250129998f,0.249489993f,0.248879999f,0.248329997f,0.247879997f,0.247559994f,0.247409999f,0.247439995f,0.247710004f,0.248239994f,0.249050006f,0.250160009f,0.251599997f,0.253390014f,0.255549997f,0.258109987f,0.261079997f,0.264490008f,0.268359989f,0.272709996f,0.277539998f,0.282849997f,0.288639992f,0.294910014f,0.301660001f,0.308880001f,0.316579998f,0.324750006f,0.333389997f,0.342510015f,0.352070004f,0.36206001f,0.372460008f,0.383249998f,0.394400001f,0.405889988f,0.417710006f,0.429820001f,0.442209989f,0.454849988f,0.467680007f,0.480639994f,0.493669987f,0.506699979f,0.51967001f,0.532509983f,0.545180023f,0.557590008f,0.569689989f,0.581420004f,0.59276998f,0.603720009f,0.614260018f,0.624379992f,0.634079993f,0.643339992f,0.652149975f,0.66049999f,0.668370008f,0.675779998f,0.682709992f,0.68918997f,0.695240021f,0.700869977f,0.706080019f,0.710910022f,0.715359986f,0.719439983f,0.723179996f,0.726580024f,0.729680002f,0.732490003f,0.735029995f,0.737330019f,0.739409983f,0.741299987f,0.743009984f,0.744579971f,0.746010005f,0.747349977f,0.748579979f,0.749740005f,0.750819981f,0.751850009f,0.752820015f,0.75375998f,0.754670024f,0.755559981f,0.756439984f,0.75733f,0.758220017f,0.759130001f,0.760070026f,0.761020005f,0.762009978f,0.763029993f,0.764100015f,0.765209973f,0.766369998f,0.767589986f,0.768869996f,0.770210028f,0.771629989f,0.77313f,0.77471f,0.776369989f,0.778129995f,0.779990017f,0.781949997f,0.782060027f,0.783420026f,0.784770012f,0.786119998f,0.787469983f,0.788800001f,0.790130019f,0.791459978f,0.792779982f,0.794089973f,0.79539001f,0.796689987f,0.797990024f,0.799269974f,0.800559998f,0.801829994f,0.80309999f,0.804359972f,0.805620015f,0.806869984f,0.808109999f,0.809350014f,0.810580015f,0.811810017f,0.813030005f,0.814239979f,0.815450013f,0.816649973f,0.817849994f,0.81904f,0.820219994f,0.821399987f,0.822570026f,0.823740005f,0.824899971f,0.826049984f,0.827199996f,0.828339994f,0.829469979f,0.830600023f,0.831730008f,0.832840025f,0.833959997f,0.83506f,0.836160004f,0.837249994f,0.838339984f,0.839420021f,0.840499997f,0.84157002f,0.842639983f,0.843689978f,0.844749987f,0.845790029f,0.84683001f,0.847869992f,0.84890002f,0.849919975f,0.850939989f,0.85194999f,0.852959991f,0.853959978f,0.854960024f,0.855949998f,0.856930017f,0.857909977f,0.858879983f,0.859849989f,0.860809982f,0.861769974f,0.862720013f,0.863669991f,0.864610016f,0.865540028f,0.866469979f,0.867389977f,0.868309975f,0.869220018f,0.870130002f};
static const float REF_CES87[400] = {0.106129996f,0.10802f,0.109930001f,0.111879997f,0.113849998f,0.11586f,0.11789f,0.119960003f,0.122060001f,0.124190003f,0.126350001f,0.128539994f,0.130759999f,0.133019999f,0.135309994f,0.137639999f,0.139990002f,0.142389998f,0.144810006f,0.147269994f,0.145960003f,0.150309995f,0.154349998f,0.158089995f,0.16155f,0.164759994f,0.167720005f,0.170469999f,0.172999993f,0.175349995f,0.177530006f,0.179560006f,0.181459993f,0.183239996f,0.184919998f,0.186529994f,0.188069999f,0.189579993f,0.191060007f,0.192530006f,0.194010004f,0.195519999f,0.197070003f,0.198650002f,0.200269997f,0.201930001f,0.203639999f,0.205400005f,0.207200006f,0.209069997f,0.210989997f,0.212970003f,0.214990005f,0.217040002f,0.219099998f,0.221139997f,0.223159999f,0.225119993f,0.227019995f,0.228839993f,0.230550006f,0.232140005f,0.233600006f,0.234899998f,0.236039996f,0.237000003f,0.237749994f,0.238299996f,0.238609999f,0.238680005f,0.23849f,0.23804f,0.237320006f,0.236369997f,0.235210001f,0.233840004f,0.23229f,0.230590001f,0.228740007f,0.226769999f,0.224690005f,0.222530007f,0.220300004f,0.217989996f,0.215629995f,0.21322f,0.210769996f,0.208289996f,0.205789998f,0.203280002f,0.200760007f,0.198249996f,0.195749998f,0.19325f,0.19077f,0.18829f,0.185829997f,0.183379993f,0.180950001f,0.178540006f,0.176139995f,0.173759997f,0.171409994f,0.169080004f,0.166769996f,0.164480001f,0.162210003f,0.15997f,0.157759994f,0.15557f,0.153400004f,0.151260003f,0.149149999f,0.147049993f,0.14497f,0.142900005f,0.140829995f,0.138769999f,0.136700004f,0.134629995f,0.132550001f,0.130459994f,0.128350005f,0.12624f,0.124109998f,0.121969998f,0.119829997f,0.117679998f,0.11552f,0.113370001f,0.111199997f,0.10904f,0.10689f,0.10475f,0.102629997f,0.100539997f,0.0984959975f,0.0964939967f,0.0945470035f,0.0926629975f,0.0908500031f,0.0891150013f,0.0874579996f,0.0858799964f,0.0843809992f,0.0829610005f,0.0816200003f,0.0803579986f,0.0791760013f,0.0780730024f,0.0770490021f,0.0761030018f,0.0752239972f,0.0744009987f,0.0736230016f,0.0728759989f,0.0721490011f,0.0714299977f,0.0707079992f,0.0699699968f,0.069205001f,0.0684029981f,0.067561999f,0.0666840002f,0.0657700002f,0.0648209974f,0.0638360009f,0.0628189966f,0.0617679991f,0.0606870018f,0.0595740005f,0.058433f,0.057271f,0.0560959987f,0.0549179986f,0.0537450016f,0.0525849983f,0.0514479987f,0.0503409989f,0.0492740013f,0.0482550003f,0.0472920015f,0.0463869981f,0.0455409996f,0.044755999f,0.0440340005f,0.0433750004f,0.0427820012f,0.0422540009f,0.0417950004f,0.0414040014f,0.0410879999f,0.0408720002f,0.0407829992f,0.0408519991f,0.0411060005f,0.0415749997f,0.0422860011f,0.0432699993f,0.044555001f,0.04617f,0.0481350012f,0.0504439995f,0.0530790016f,0.056024f,0.0592649989f,0.0627840012f,0.0665669963f,0.070596002f,0.0748569965f,0.0793329999f,0.0840009972f,0.0888110027f,0.0937049985f,0.098627001f,0.103519998f,0.108319998f,0.112980001f,0.117430001f,0.121629998f,0.125499994f,0.129020005f,0.132180005f,0.135030001f,0.137569994f,0.139840007f,0.141870007f,0.143680006f,0.145290002f,0.146740004f,0.148039997f,0.149230003f,0.150309995f,0.151289999f,0.15219f,0.153009996f,0.15377f,0.154479995f,0.155139998f,0.155770004f,0.156379998f,0.156979993f,0.157560006f,0.158140004f,0.158700004f,0.159270003f,0.159820005f,0.160380006f,0.160929993f,0.161489993f,0.162039995f,0.162599996f,0.163159996f,0.163739994f,0.164320007f,0.164920002f,0.165529996f,0.166160002f,0.166820005f,0.167490005f,0.168200001f,0.168929994f,0.169689998f,0.170479998f,0.171299994f,0.172150001f,0.173030004f,0.173930004f,0.174869999f,0.175840005f,0.176840007f,0.177860007f,0.178900003f,0.179949999f,0.180989996f,0.181999996f,0.182980001f,0.183909997f,0.184770003f,0.185560003f,0.186269999f,0.186869994f,0.187380001f,0.187779993f,0.188089997f,0.188299999f,0.188409999f,0.188439995f,0.188370004f,0.188209996f,0.187959999f,0.187619999f,0.187209994f,0.186749995f,0.186240003f,0.185709998f,0.185159996f,0.184619993f,0.184100002f,0.183620006f,0.183190003f,0.182820007f,0.182510003f,0.182249993f,0.182040006f,0.181850001f,0.181700006f,0.181569993f,0.181449994f,0.181329995f,0.181199998f,0.18107f,0.180920005f,0.18073f,0.180519998f,0.180260003f,0.17994f,0.179570004f,0.179130003f,0.178619996f,0.178029999f,0.178470001f,0.178230003f,0.177990004f,0.177750006f,0.177509993f,0.177269995f,0.177029997f,0.176789999f,0.17656f,0.176320001f,0.176080003f,0.175840005f,0.175600007f,0.175369993f,0.175129995f,0.174889997f,0.174659997f,0.174419999f,0.17419f,0.173950002f,0.173710003f,0.173480004f,0.173240006f,0.173010007f,0.172780007f,0.172539994f,0.172309995f,0.172069997f,0.171839997f,0.171609998f,0.17137f,0.17114f,0.170910001f,0.170680001f,0.170450002f,0.170210004f,0.169980004f,0.169750005f,0.169520006f,0.169290006f,0.169060007f,0.168830007f,0.168599993f,0.168369994f,0.168139994f,0.167909995f,0.167679995f,0.167449996f,0.167229995f,0.166999996f,0.166769996f,0.166539997f,0.166309997f,0.166089997f,0.165859997f,0.165629998f,0.165409997f,0.165179998f,0.164959997f,0.164729998f,0.164509997f,0.164279997f,0.164059997f,0.163829997f,0.163609996f,0.163379997f,0.163159996f,0.162929997f,0.162709996f,0.162489995f,0.162259996f,0.162039995f,0.161819994f,0.161599994f,0.161379993f,0.161149994f,0.160929993f,0.160710007f,0.160490006f};
static const float REF_CES88[400] = {0.426400006f,0.429170012f,0.431959987f,0.434740007f,0.437530011f,0.440329999f,0.443129987f,0.445930004f,0.448729992f,0.451539993f,0.454349995f,0.45717001f,0.459989995f,0.46281001f,0.465629995f,0.46845001f,0.471280009f,0.474110007f,0.476940006f,0.479770005f,0.474900007f,0.481290013f,0.487019986f,0.492110014f,0.496609986f,0.500540018f,0.503939986f,0.506829977f,0.509259999f,0.511250019f,0.512830019f,0.514050007f,0.514919996f,0.515489995f,0.515789986f,0.515839994f,0.515690029f,0.515349984f,0.514880002f,0.514289975f,0.513629973f,0.512910008f,0.512130022f,0.511290014f,0.51038003f,0.509379983f,0.508289993f,0.507089972f,0.505789995f,0.50436002f,0.502799988f,0.501110017f,0.499289989f,0.497339994f,0.495279998f,0.493129998f,0.490880013f,0.488550007f,0.486140013f,0.48368001f,0.481160015f,0.478599995f,0.476000011f,0.473369986f,0.470710009f,0.468039989f,0.465359986f,0.462669998f,0.459989995f,0.457309991f,0.454650015f,0.452010006f,0.449389994f,0.44679001f,0.444209993f,0.44163999f,0.439090014f,0.436560005f,0.43404001f,0.431529999f,0.429030001f,0.426539987f,0.424059987f,0.42159f,0.41911f,0.416619986f,0.414130002f,0.411630005f,0.40911001f,0.406569988f,0.404009998f,0.401419997f,0.398799986f,0.396140009f,0.393440008f,0.390679985f,0.387870014f,0.384990007f,0.382039994f,0.379020005f,0.375910014f,0.372720003f,0.369439989f,0.366070002f,0.36263001f,0.359120011f,0.355529994f,0.351880014f,0.348170012f,0.344390005f,0.340559989f,0.336690009f,0.332780004f,0.328850001f,0.324930012f,0.321029991f,0.317180008f,0.313380003f,0.309659988f,0.306039989f,0.302540004f,0.299160004f,0.295899987f,0.292730004f,0.289649993f,0.286619991f,0.283639997f,0.280680001f,0.277720004f,0.274760008f,0.271759987f,0.268709987f,0.265610009f,0.262459993f,0.259249985f,0.255980015f,0.252660006f,0.249270007f,0.245810002f,0.242290005f,0.238690004f,0.235029995f,0.231340006f,0.227650002f,0.224000007f,0.220420003f,0.216949999f,0.213630006f,0.210500002f,0.207589999f,0.204929993f,0.202570006f,0.200479999f,0.19867f,0.197109997f,0.195800006f,0.194729999f,0.193869993f,0.193230003f,0.192780003f,0.192519993f,0.192430004f,0.192479998f,0.192640007f,0.192870006f,0.193149999f,0.193430007f,0.193690002f,0.193900004f,0.194020003f,0.194010004f,0.193859994f,0.193570003f,0.193130001f,0.192570001f,0.1919f,0.19111f,0.190229997f,0.189250007f,0.188189998f,0.187059999f,0.185880005f,0.18468f,0.183510005f,0.182439998f,0.181510001f,0.180769995f,0.180260003f,0.180050001f,0.180179998f,0.180710003f,0.181669995f,0.183060005f,0.184890002f,0.187150002f,0.189830005f,0.192929998f,0.196439996f,0.20036f,0.204679996f,0.209399998f,0.214509994f,0.219960004f,0.225710005f,0.231720001f,0.237949997f,0.244350001f,0.250869989f,0.257479995f,0.264120013f,0.27076f,0.277359992f,0.283890009f,0.29034999f,0.296739995f,0.30302f,0.309210002f,0.31527999f,0.321229994f,0.32705f,0.332720011f,0.338239998f,0.343609989f,0.348820001f,0.353899986f,0.358830005f,0.363620013f,0.368279994f,0.372810006f,0.377200007f,0.381469995f,0.385619998f,0.38962999f,0.3935f,0.397210002f,0.400759995f,0.404130012f,0.407310009f,0.410299987f,0.413069993f,0.415630013f,0.417959988f,0.420060009f,0.421939999f,0.423610002f,0.425080001f,0.426349998f,0.42741999f,0.428299993f,0.42899999f,0.429529995f,0.429890007f,0.43009001f,0.430150002f,0.430079997f,0.429899991f,0.429610014f,0.429239988f,0.428799987f,0.428290009f,0.427740008f,0.427159995f,0.426569998f,0.425989985f,0.425449997f,0.424970001f,0.424580008f,0.424279988f,0.424120009f,0.424109995f,0.424270004f,0.424620003f,0.425190002f,0.425989985f,0.427029997f,0.428330004f,0.429899991f,0.431769997f,0.433939993f,0.436430007f,0.439260006f,0.442440003f,0.445980012f,0.449880004f,0.454140007f,0.458770007f,0.463779986f,0.469159991f,0.474920005f,0.481070012f,0.487610012f,0.494540006f,0.501829982f,0.509459972f,0.517400026f,0.525619984f,0.534089983f,0.542779982f,0.551670015f,0.56072998f,0.569920003f,0.579230011f,0.588620007f,0.598060012f,0.607509971f,0.616949975f,0.626349986f,0.635670006f,0.644879997f,0.653949976f,0.662859976f,0.671559989f,0.680040002f,0.688250005f,0.696160018f,0.703750014f,0.710990012f,0.717840016f,0.724259973f,0.730239987f,0.735740006f,0.745970011f,0.752849996f,0.759609997f,0.766250014f,0.77275002f,0.779129982f,0.785380006f,0.791490018f,0.797479987f,0.803340018f,0.809069991f,0.814670026f,0.820140004f,0.825489998f,0.830709994f,0.835810006f,0.84078002f,0.84562999f,0.850350022f,0.854960024f,0.859449983f,0.863820016f,0.86808002f,0.87221998f,0.876250029f,0.880180001f,0.88398999f,0.887700021f,0.891300023f,0.894810021f,0.898209989f,0.90151f,0.904720008f,0.907840014f,0.910860002f,0.913789988f,0.916639984f,0.919399977f,0.92207998f,0.924669981f,0.927190006f,0.929620028f,0.931980014f,0.934270024f,0.936489999f,0.938639998f,0.940720022f,0.94273001f,0.944679976f,0.946560025f,0.948390007f,0.950150013f,0.951860011f,0.953509986f,0.955110013f,0.956659973f,0.958159983f,0.959599972f,0.961000025f,0.962350011f,0.963660002f,0.964919984f,0.966139972f,0.967320025f,0.968460023f,0.969560027f,0.970619977f,0.971650004f,0.972649992f,0.97359997f,0.974529982f,0.975430012f,0.976289988f,0.977119982f,0.977930009f,0.978709996f,0.979460001f,0.980180025f,0.980880022f};
static const float REF_CES89[400] = {0.0727450028f,0.074529998f,0.0763560012f,0.0782219991f,0.0801300034f,0.0820799991f,0.0840729997f,0.0861110017f,0.088192001f,0.0903199986f,0.0924929976f,0.0947130024f,0.0969809964f,0.099297002f,0.101659998f,0.104079999f,0.106540002f,0.109059997f,0.11163f,0.114249997f,0.115460001f,0.118709996f,0.121990003f,0.125300005f,0.12861f,0.131909996f,0.135179996f,0.138400003f,0.141550004f,0.144610003f,0.147569999f,0.150399998f,0.15309f,0.155619994f,0.157959998f,0.160109997f,0.162049994f,0.163739994f,0.165189996f,0.166360006f,0.167239994f,0.167820007f,0.168149993f,0.168300003f,0.16832f,0.168280005f,0.168239996f,0.168249995f,0.168390006f,0.168709993f,0.169269994f,0.170120001f,0.171220005f,0.172499999f,0.173899993f,0.175369993f,0.176850006f,0.178269997f,0.179580003f,0.180710003f,0.181600004f,0.182219997f,0.182569996f,0.182679996f,0.182579994f,0.182300001f,0.181850001f,0.181280002f,0.180600002f,0.179849997f,0.179059997f,0.178230003f,0.177379996f,0.176499993f,0.175559998f,0.174579993f,0.173529997f,0.172409996f,0.171220005f,0.169939995f,0.168559998f,0.16708f,0.1655f,0.163819999f,0.162049994f,0.160170004f,0.158199996f,0.15614f,0.153980002f,0.15174f,0.149399996f,0.146980003f,0.144490004f,0.141949996f,0.139379993f,0.136790007f,0.134200007f,0.131630003f,0.129099995f,0.126629993f,0.124229997f,0.121909998f,0.119680002f,0.117519997f,0.11541f,0.113360003f,0.111340001f,0.109350003f,0.107380003f,0.105410002f,0.103440002f,0.101460002f,0.0994710028f,0.0974899977f,0.0955229998f,0.0935809985f,0.091674f,0.0898109972f,0.0880019963f,0.0862570032f,0.0845860019f,0.0829960033f,0.081487f,0.0800559968f,0.0786990002f,0.0774139985f,0.076196f,0.0750439987f,0.0739540011f,0.072924003f,0.0719489977f,0.0710270032f,0.0701519996f,0.0693190023f,0.0685229972f,0.067757003f,0.0670169964f,0.0662980005f,0.0655919984f,0.0648960024f,0.0642039999f,0.0635109991f,0.0628189966f,0.0621309988f,0.0614509992f,0.0607799999f,0.0601219982f,0.0594809987f,0.0588579997f,0.0582569987f,0.0576810017f,0.0571330003f,0.0566149987f,0.0561290011f,0.0556779988f,0.0552630015f,0.0548859984f,0.0545499995f,0.0542570017f,0.0540090017f,0.0538089983f,0.053656999f,0.0535570011f,0.0535099991f,0.053518001f,0.0535829999f,0.0537069999f,0.0538909994f,0.0541380011f,0.0544500016f,0.0548279993f,0.0552730002f,0.0557809994f,0.0563459992f,0.0569639988f,0.0576269999f,0.0583319999f,0.0590730011f,0.059843f,0.0606379993f,0.0614520013f,0.0622799993f,0.0631169975f,0.0639590025f,0.0648010001f,0.0656389967f,0.0664680004f,0.0672829971f,0.068080999f,0.0688560009f,0.0696050003f,0.0703240037f,0.0710199997f,0.0716990009f,0.0723700002f,0.0730400011f,0.0737159997f,0.074405998f,0.0751179978f,0.0758590028f,0.0766369998f,0.0774580017f,0.0783229992f,0.0792339966f,0.0801910013f,0.0811949968f,0.0822449997f,0.0833439976f,0.0844900012f,0.0856849998f,0.0869299993f,0.0882240012f,0.0895659998f,0.0909539983f,0.0923859999f,0.0938609987f,0.0953769982f,0.096931003f,0.0985229984f,0.100149997f,0.101810001f,0.103500001f,0.105209999f,0.10695f,0.1087f,0.11045f,0.112209998f,0.113959998f,0.115709998f,0.117430001f,0.11913f,0.120810002f,0.122450002f,0.124049999f,0.125619993f,0.12714f,0.12861f,0.130019993f,0.131380007f,0.132679999f,0.13391f,0.135079995f,0.136179999f,0.137229994f,0.138239995f,0.139219999f,0.140169993f,0.141100004f,0.142030001f,0.142959997f,0.143900007f,0.144859999f,0.145850003f,0.146870002f,0.147949994f,0.149090007f,0.150299996f,0.151580006f,0.152960002f,0.154440001f,0.156029999f,0.157729998f,0.159559995f,0.161520004f,0.163609996f,0.165830001f,0.168190002f,0.170680001f,0.173329994f,0.176119998f,0.179059997f,0.182150006f,0.185399994f,0.188800007f,0.192359999f,0.196070001f,0.199939996f,0.203960001f,0.208140001f,0.212479994f,0.216969997f,0.221619993f,0.22642f,0.231370002f,0.236469999f,0.241699994f,0.247079998f,0.252579987f,0.258219987f,0.263980001f,0.269859999f,0.275860012f,0.281980008f,0.288219988f,0.294580013f,0.301070005f,0.307689995f,0.314440012f,0.321319997f,0.32833001f,0.335489988f,0.342779994f,0.350199997f,0.357730001f,0.365370005f,0.373089999f,0.380879998f,0.388740003f,0.396640003f,0.404579997f,0.412530005f,0.42050001f,0.428460002f,0.43641001f,0.444319993f,0.452190012f,0.460000008f,0.467729986f,0.475389987f,0.482950002f,0.490390003f,0.499550015f,0.507560015f,0.515569985f,0.523570001f,0.53154999f,0.539529979f,0.547479987f,0.555400014f,0.563300014f,0.571169972f,0.578999996f,0.586790025f,0.59454f,0.602240026f,0.609889984f,0.617489994f,0.625029981f,0.632510006f,0.63993001f,0.647279978f,0.65456003f,0.661769986f,0.668910027f,0.675960004f,0.682940006f,0.689840019f,0.696659982f,0.703390002f,0.710030019f,0.716579974f,0.723049998f,0.729420006f,0.735700011f,0.74188f,0.747969985f,0.753960013f,0.759859979f,0.765659988f,0.77135998f,0.776960015f,0.782469988f,0.78786999f,0.793179989f,0.798389971f,0.803499997f,0.808510005f,0.813419998f,0.818229973f,0.822950006f,0.827570021f,0.832099974f,0.83653003f,0.840860009f,0.845109999f,0.849250019f,0.853309989f,0.857280016f,0.861150026f,0.864939988f,0.868640006f,0.872259974f,0.875779986f,0.879230022f,0.882589996f,0.88586998f,0.889069974f,0.89218998f,0.895240009f,0.898199975f,0.90109998f,0.903919995f,0.90666002f,0.909340024f,0.911949992f,0.914489985f,0.916960001f,0.919369996f,0.921710014f,0.923990011f};
static const float REF_CES90[400] = {0.221780002f,0.223649994f,0.225539997f,0.22744f,0.229340002f,0.23127f,0.233199999f,0.235139996f,0.237090006f,0.23906f,0.241029993f,0.243019998f,0.245020002f,0.247030005f,0.249050006f,0.251080006f,0.253120005f,0.255180001f,0.257239997f,0.259319991f,0.261700004f,0.263319999f,0.265329987f,0.267619997f,0.270119995f,0.272709996f,0.275299996f,0.277799994f,0.280119985f,0.28215f,0.283800006f,0.284999996f,0.285769999f,0.286159992f,0.286210001f,0.285979986f,0.285519987f,0.284859985f,0.284049988f,0.283149987f,0.282200009f,0.281239986f,0.280259997f,0.27926001f,0.278210014f,0.27711001f,0.275940001f,0.274679989f,0.273330003f,0.271880001f,0.270300001f,0.268590003f,0.266759992f,0.264809996f,0.262769997f,0.260630012f,0.258410007f,0.25613001f,0.253800005f,0.251410007f,0.248999998f,0.246560007f,0.244110003f,0.241630003f,0.239140004f,0.236629993f,0.234109998f,0.231570005f,0.22902f,0.226469994f,0.223900005f,0.221330002f,0.21875f,0.216179997f,0.213620007f,0.211070001f,0.208539993f,0.206029996f,0.203549996f,0.201110005f,0.198699996f,0.196339995f,0.194010004f,0.191709995f,0.189439997f,0.187179998f,0.184929997f,0.182689995f,0.180439994f,0.178179994f,0.175899997f,0.173600003f,0.171269998f,0.168919995f,0.166559994f,0.164169997f,0.161760002f,0.159339994f,0.156910002f,0.154459998f,0.151999995f,0.149529994f,0.147070006f,0.144610003f,0.142179996f,0.139789999f,0.137429997f,0.135140002f,0.132909998f,0.130759999f,0.128700003f,0.126739994f,0.124870002f,0.123089999f,0.12139f,0.119769998f,0.118210003f,0.116729997f,0.1153f,0.113930002f,0.112599999f,0.111309998f,0.110059999f,0.108829997f,0.107620001f,0.106420003f,0.105209999f,0.103990003f,0.102760002f,0.101499997f,0.100199997f,0.0988610014f,0.0974849984f,0.0960789993f,0.0946509987f,0.0932070017f,0.0917539969f,0.0903000012f,0.0888509974f,0.0874160007f,0.0860000029f,0.0846109986f,0.0832559988f,0.0819389969f,0.0806669965f,0.079444997f,0.0782800019f,0.077177003f,0.0761419982f,0.0751809999f,0.0742999986f,0.0735030025f,0.0727910027f,0.0721599981f,0.0716100037f,0.0711390004f,0.0707449988f,0.0704249963f,0.0701790005f,0.0700049996f,0.0698999986f,0.0698620006f,0.069881998f,0.0699490011f,0.0700540021f,0.0701870024f,0.0703359991f,0.0704919994f,0.0706449971f,0.0707840025f,0.0709000006f,0.0709839985f,0.071039997f,0.0710730031f,0.0710880011f,0.0710899979f,0.0710849985f,0.0710780025f,0.0710749999f,0.0710799992f,0.0710999966f,0.0711399987f,0.0712129995f,0.0713310018f,0.0715069994f,0.0717540011f,0.0720850006f,0.0725120008f,0.073048003f,0.073706001f,0.074500002f,0.0754410028f,0.0765369982f,0.0777980015f,0.0792310014f,0.080844f,0.0826459974f,0.0846439973f,0.0868469998f,0.0892629996f,0.0918999985f,0.0947609991f,0.0978320017f,0.101089999f,0.104520001f,0.108110003f,0.111819997f,0.115649998f,0.119560003f,0.123559996f,0.127599999f,0.131679997f,0.135769993f,0.139850006f,0.143910006f,0.147909999f,0.15185f,0.155699998f,0.159439996f,0.163039997f,0.166500002f,0.16979f,0.172910005f,0.175860003f,0.178660005f,0.181299999f,0.18378f,0.186120003f,0.188319996f,0.190380007f,0.192300007f,0.194089994f,0.195759997f,0.197310001f,0.198760003f,0.200110003f,0.20138f,0.202559993f,0.203669995f,0.204710007f,0.205699995f,0.206640005f,0.207540005f,0.208389997f,0.209209993f,0.209989995f,0.210730001f,0.211439997f,0.212119997f,0.21277f,0.213400006f,0.21401f,0.214589998f,0.215159997f,0.215709999f,0.216260001f,0.216790006f,0.217319995f,0.21785f,0.218370005f,0.218899995f,0.21943f,0.219970003f,0.220520005f,0.221080005f,0.221640006f,0.222210005f,0.222790003f,0.223379999f,0.223989993f,0.224600002f,0.225219995f,0.225850001f,0.226480007f,0.227090001f,0.227679998f,0.228249997f,0.228780001f,0.229269996f,0.229719996f,0.230100006f,0.230419993f,0.230700001f,0.230930001f,0.231150001f,0.231370002f,0.231590003f,0.23184f,0.232130006f,0.232480004f,0.232899994f,0.233400002f,0.23398f,0.234620005f,0.235320002f,0.236059994f,0.236839995f,0.237639993f,0.238460004f,0.23928f,0.240099996f,0.240899995f,0.241689995f,0.242449999f,0.243200004f,0.243929997f,0.244629994f,0.245309994f,0.245969996f,0.246600002f,0.247199997f,0.247769997f,0.248319998f,0.248830006f,0.249300003f,0.249730006f,0.250120014f,0.250470012f,0.250759989f,0.251010001f,0.251199991f,0.251520008f,0.251789987f,0.252059996f,0.252339989f,0.252609998f,0.252880007f,0.253149986f,0.253419995f,0.253690004f,0.253969997f,0.254240006f,0.254509985f,0.254779994f,0.255059987f,0.255329996f,0.255600005f,0.255879998f,0.256150007f,0.256419986f,0.256700009f,0.256969988f,0.257250011f,0.25751999f,0.257800013f,0.258069992f,0.258350015f,0.258619994f,0.258899987f,0.259180009f,0.259449989f,0.259730011f,0.25999999f,0.260280013f,0.260560006f,0.260829985f,0.261110008f,0.261390001f,0.261669993f,0.261940002f,0.262219995f,0.262499988f,0.262780011f,0.263060004f,0.263339996f,0.263619989f,0.263889998f,0.264169991f,0.264450014f,0.264730006f,0.265009999f,0.265289992f,0.265570015f,0.265850008f,0.26613f,0.266420007f,0.2667f,0.266979992f,0.267259985f,0.267540008f,0.267820001f,0.268099993f,0.26839f,0.268669993f,0.268949986f,0.269230008f,0.269520015f,0.269800007f,0.27008f,0.270370007f,0.270649999f,0.270929992f,0.271219999f,0.271499991f,0.271789998f,0.272069991f,0.272359997f,0.27263999f,0.272929996f,0.273209989f};
static const float REF_CES91[400] = {0.0296589993f,0.0297350008f,0.0301200002f,0.0309100002f,0.0321400017f,0.0337920003f,0.0358330011f,0.0382170007f,0.0409430005f,0.0440849997f,0.0477689989f,0.0521630011f,0.0574290007f,0.0636859983f,0.0709540024f,0.0791679993f,0.0882150009f,0.0979729965f,0.108346f,0.119276002f,0.130744994f,0.139272004f,0.148185f,0.157454997f,0.167043999f,0.176905006f,0.186995f,0.197275996f,0.207725003f,0.218323007f,0.229050994f,0.239897996f,0.250860989f,0.261940986f,0.273140997f,0.284462988f,0.295915008f,0.307493001f,0.319186002f,0.330962002f,0.342785001f,0.354613006f,0.366402f,0.378107011f,0.389683992f,0.401095986f,0.412310988f,0.423307002f,0.434062004f,0.444559991f,0.454786986f,0.464731991f,0.47439f,0.483749002f,0.492787987f,0.501497984f,0.509869993f,0.517893016f,0.525539994f,0.532791018f,0.539635003f,0.546060979f,0.552061021f,0.55763799f,0.562815011f,0.567622006f,0.57208699f,0.576241016f,0.580111027f,0.583715975f,0.587077022f,0.590206027f,0.593118012f,0.595821977f,0.598321021f,0.600610971f,0.602681994f,0.60451901f,0.606103003f,0.607427001f,0.608494997f,0.609323978f,0.609932005f,0.610342979f,0.610572994f,0.610638976f,0.610551f,0.610318005f,0.609942019f,0.609427989f,0.608792007f,0.608047009f,0.607200027f,0.606247008f,0.605194986f,0.604056001f,0.602836013f,0.601535976f,0.600170016f,0.598766029f,0.597343028f,0.595903993f,0.594452977f,0.592998981f,0.591547012f,0.590092003f,0.588627994f,0.587161005f,0.585694015f,0.584227026f,0.582751989f,0.581264973f,0.579765022f,0.578243971f,0.576692998f,0.575109005f,0.573493004f,0.571852982f,0.570199013f,0.568548977f,0.566923022f,0.565338016f,0.563799977f,0.56231302f,0.560876012f,0.559485972f,0.558135986f,0.556819975f,0.555527985f,0.554247975f,0.552965999f,0.551660001f,0.550314009f,0.548915982f,0.547466993f,0.545970023f,0.544429004f,0.542850971f,0.541242003f,0.539601982f,0.537934005f,0.536239028f,0.53452599f,0.532809019f,0.531105995f,0.529434979f,0.527813017f,0.526256979f,0.524775982f,0.523378015f,0.522065997f,0.520841002f,0.519698977f,0.518631995f,0.517633021f,0.516692996f,0.515798986f,0.514937997f,0.514099002f,0.513270974f,0.512441993f,0.511601985f,0.510744989f,0.509869993f,0.508975983f,0.508068025f,0.507156014f,0.506250024f,0.505365014f,0.504512012f,0.503709018f,0.50297302f,0.502318978f,0.501760006f,0.501308024f,0.500972986f,0.500760019f,0.500670016f,0.500698984f,0.500842988f,0.501094997f,0.501438975f,0.501860976f,0.502344012f,0.50286901f,0.503417015f,0.503970027f,0.504514992f,0.505041003f,0.505540013f,0.506009996f,0.506452024f,0.506870985f,0.507278025f,0.507679999f,0.508090973f,0.508522987f,0.50898999f,0.50950402f,0.510075986f,0.510715008f,0.511430979f,0.512228012f,0.513109028f,0.514075994f,0.515127003f,0.516260028f,0.517472982f,0.518761992f,0.520121992f,0.521544993f,0.523021996f,0.524544001f,0.526099026f,0.527673006f,0.529253006f,0.530830979f,0.532400012f,0.533958972f,0.535507023f,0.537052989f,0.538604975f,0.540175021f,0.541774988f,0.543416023f,0.545109987f,0.546866f,0.548690975f,0.550586998f,0.552552998f,0.554584026f,0.55667001f,0.558802009f,0.560967982f,0.563158989f,0.565366983f,0.567589998f,0.569826007f,0.572076023f,0.574338973f,0.576610029f,0.578875005f,0.581119001f,0.583317995f,0.585449994f,0.587490976f,0.589421988f,0.591230989f,0.592909992f,0.59445399f,0.595863998f,0.597150028f,0.598326981f,0.599417984f,0.600449979f,0.601455986f,0.602469027f,0.603514016f,0.604605019f,0.605749011f,0.606944025f,0.608179986f,0.609443009f,0.610716999f,0.611989021f,0.61324501f,0.614470005f,0.615653992f,0.616783023f,0.617851973f,0.618857026f,0.619800985f,0.620698988f,0.621571004f,0.622438014f,0.623314977f,0.624212027f,0.625132024f,0.626066029f,0.626996994f,0.627900004f,0.628764987f,0.629575014f,0.630312979f,0.630958974f,0.631500006f,0.63192898f,0.632241011f,0.632441998f,0.632546008f,0.632582009f,0.632575989f,0.632548988f,0.632514f,0.632477999f,0.63233602f,0.632312f,0.632363975f,0.632430971f,0.632434011f,0.632349014f,0.631869018f,0.631269991f,0.630558014f,0.62974602f,0.628840029f,0.627848983f,0.626779974f,0.625644028f,0.624450982f,0.623210013f,0.621927977f,0.620607018f,0.619242013f,0.617820978f,0.616326988f,0.614749014f,0.613077998f,0.611307979f,0.609441996f,0.607493997f,0.605480015f,0.603412986f,0.601315022f,0.599214971f,0.597150981f,0.595157981f,0.593262017f,0.591485023f,0.589833975f,0.58829999f,0.586858988f,0.585480988f,0.584140003f,0.582808971f,0.581462979f,0.580183983f,0.578724027f,0.577099025f,0.575348973f,0.573541999f,0.571695983f,0.57011801f,0.568539023f,0.56695801f,0.565375984f,0.563793004f,0.562207997f,0.560621977f,0.559035003f,0.557447016f,0.555858016f,0.554266989f,0.552676022f,0.551083028f,0.549489021f,0.547894001f,0.546298981f,0.544701993f,0.543103993f,0.541504979f,0.539906025f,0.538305998f,0.536704004f,0.53510201f,0.533500016f,0.531897008f,0.530292988f,0.528688014f,0.52708298f,0.525478005f,0.523871005f,0.522265017f,0.520657003f,0.519050002f,0.517441988f,0.51583302f,0.514225006f,0.512615979f,0.511007011f,0.50939697f,0.507789016f,0.506179988f,0.504570007f,0.502960026f,0.501348972f,0.499738008f,0.498126f,0.496513993f,0.494902015f,0.493290007f,0.491677999f,0.490065992f,0.488454998f,0.48684299f,0.485231996f,0.483619988f,0.482010007f,0.480399996f,0.478789985f};
static const float REF_CES92[400] = {0.00526000001f,0.00816500001f,0.0115130004f,0.0149499997f,0.0189859997f,0.0244830009f,0.0303559992f,0.0361390002f,0.0416189991f,0.0469189994f,0.0516499989f,0.0558900014f,0.0600280017f,0.064418003f,0.0689800009f,0.0737340003f,0.0785629973f,0.0832609981f,0.0877799988f,0.0922069997f,0.0967010036f,0.101292998f,0.105972998f,0.110737003f,0.115561999f,0.120481998f,0.125562996f,0.130788997f,0.136152998f,0.141616002f,0.147052005f,0.152430996f,0.157753006f,0.163019001f,0.168272004f,0.173554003f,0.178816006f,0.183998004f,0.189103007f,0.194102004f,0.199025005f,0.203942001f,0.208859995f,0.213756993f,0.218605995f,0.223370001f,0.227988005f,0.232457995f,0.236783996f,0.240955994f,0.244973004f,0.248849005f,0.252591997f,0.256211996f,0.259746999f,0.263213009f,0.266606003f,0.269932985f,0.273180991f,0.276317f,0.279320002f,0.282178015f,0.284871995f,0.287405998f,0.289790988f,0.292026997f,0.294073999f,0.29589501f,0.297472f,0.298812002f,0.299901992f,0.300779998f,0.301492006f,0.302067012f,0.302473009f,0.30269599f,0.302736014f,0.302617013f,0.302361995f,0.301997989f,0.301542997f,0.301041007f,0.300469995f,0.299807996f,0.299062014f,0.298263013f,0.297410011f,0.296528012f,0.295635998f,0.294737995f,0.293857008f,0.292966008f,0.292028993f,0.291045994f,0.290021986f,0.288920999f,0.287750006f,0.286534011f,0.285250008f,0.283890009f,0.282467991f,0.280970007f,0.279408991f,0.277801007f,0.276152015f,0.274453998f,0.272715002f,0.270918012f,0.269055009f,0.267129987f,0.265143991f,0.263112009f,0.261049986f,0.258976996f,0.256915003f,0.254875988f,0.25286901f,0.250905007f,0.248995006f,0.247134998f,0.245322004f,0.24357f,0.241857007f,0.240168005f,0.238484994f,0.236787006f,0.235054001f,0.233274996f,0.231433004f,0.229527995f,0.227558002f,0.225511998f,0.223408997f,0.221277997f,0.219123006f,0.216957003f,0.214807004f,0.212666005f,0.210529f,0.208415002f,0.206343994f,0.204319f,0.202365994f,0.200461999f,0.198596001f,0.196760997f,0.194964007f,0.193191007f,0.191466004f,0.189792007f,0.188161999f,0.186562002f,0.184994996f,0.183449f,0.181933999f,0.180447996f,0.178995997f,0.177569002f,0.176163003f,0.174766004f,0.173397005f,0.172068998f,0.170787007f,0.169551f,0.168375999f,0.167254001f,0.166182995f,0.165177003f,0.164243996f,0.163389996f,0.162625998f,0.161948994f,0.161348f,0.160826996f,0.160383001f,0.160004005f,0.159691006f,0.159438998f,0.159231007f,0.159062997f,0.158930004f,0.158823997f,0.158742994f,0.158690006f,0.158671007f,0.158684f,0.158729002f,0.158796996f,0.158895999f,0.159017995f,0.159176007f,0.159361005f,0.159580007f,0.159841001f,0.160151005f,0.160484001f,0.160858005f,0.161274001f,0.161740005f,0.162249997f,0.162829995f,0.163457006f,0.16415f,0.164911002f,0.165731996f,0.166611999f,0.167576998f,0.168614f,0.169719994f,0.170917004f,0.172218993f,0.173621997f,0.175136998f,0.176773995f,0.178529993f,0.180408001f,0.182433993f,0.184621006f,0.186986998f,0.189552993f,0.192328006f,0.195308f,0.198500007f,0.201927006f,0.205595002f,0.209527001f,0.213749006f,0.218263999f,0.223067999f,0.228147998f,0.233499005f,0.239095002f,0.244944006f,0.251031011f,0.257342011f,0.263841987f,0.270529002f,0.277364999f,0.284319997f,0.291370988f,0.298503995f,0.305698991f,0.312958002f,0.320279002f,0.327681005f,0.335177988f,0.342765987f,0.350425005f,0.358152986f,0.365920007f,0.373726994f,0.38161701f,0.389587998f,0.397641987f,0.405786008f,0.413987011f,0.422183007f,0.430359989f,0.438497007f,0.446565002f,0.454564989f,0.462458014f,0.470203996f,0.477791011f,0.485186994f,0.492361009f,0.499291003f,0.505980015f,0.512396991f,0.518531024f,0.524388015f,0.529981017f,0.535327017f,0.540436029f,0.545324981f,0.550007999f,0.554482996f,0.558757007f,0.562839985f,0.566757977f,0.570492983f,0.57407397f,0.577566981f,0.581031024f,0.584493995f,0.587992013f,0.591540992f,0.595090985f,0.598621011f,0.602144003f,0.605699003f,0.609305024f,0.612904012f,0.616428018f,0.619817019f,0.622869015f,0.625653028f,0.628229976f,0.630680025f,0.63301003f,0.635227978f,0.637651026f,0.640030026f,0.642405987f,0.644786f,0.647171974f,0.649577022f,0.652004004f,0.654420018f,0.65684998f,0.65931201f,0.661817014f,0.664354026f,0.666920006f,0.669508994f,0.672116995f,0.67474103f,0.677410007f,0.680131972f,0.682914019f,0.685751975f,0.688678026f,0.691680014f,0.694701016f,0.697691023f,0.700595021f,0.703355014f,0.705941975f,0.708401978f,0.710758984f,0.713025987f,0.71518898f,0.717218995f,0.719116986f,0.720946014f,0.722755015f,0.724735022f,0.726844013f,0.729081988f,0.731365979f,0.733695984f,0.736072004f,0.738168001f,0.740252972f,0.742327988f,0.744391024f,0.746443987f,0.748485029f,0.750515997f,0.752535999f,0.754544973f,0.756542981f,0.758530021f,0.760505974f,0.76247102f,0.764424026f,0.766367018f,0.768298984f,0.770219028f,0.772127986f,0.774025977f,0.775911987f,0.777787983f,0.779651999f,0.781504989f,0.783347011f,0.785178006f,0.78699702f,0.788806021f,0.790602028f,0.792388022f,0.794162989f,0.795925975f,0.797677994f,0.799418986f,0.801149011f,0.802866995f,0.804574013f,0.806270003f,0.807955027f,0.809629023f,0.811366022f,0.813088f,0.814795017f,0.816487014f,0.818163991f,0.819826007f,0.821471989f,0.823104024f,0.824720979f,0.826322973f,0.827911019f,0.829482973f,0.831040978f,0.832584023f,0.834113002f,0.835626006f,0.837126017f,0.838609993f,0.840080023f};
static const float REF_CES93[400] = {0.230770007f,0.233309999f,0.235850006f,0.238399997f,0.240960002f,0.243520007f,0.246079996f,0.248649999f,0.251219988f,0.253789991f,0.256359994f,0.258929998f,0.261500001f,0.264070004f,0.266640007f,0.269199997f,0.271759987f,0.274320006f,0.276870012f,0.279410005f,0.281949997f,0.284480006f,0.287010014f,0.289530009f,0.292059988f,0.29460001f,0.297149986f,0.299719989f,0.302300006f,0.304910004f,0.307539999f,0.310200006f,0.312909991f,0.315649986f,0.318450004f,0.3213f,0.324209988f,0.327190012f,0.330249995f,0.333389997f,0.336620003f,0.339940012f,0.343320012f,0.346740007f,0.350169986f,0.353570014f,0.356929988f,0.360199988f,0.363359988f,0.36638999f,0.36925f,0.37191999f,0.374410003f,0.376749992f,0.378960013f,0.381049991f,0.383049995f,0.384979993f,0.386860013f,0.388700008f,0.390540004f,0.392379999f,0.394230008f,0.396079987f,0.397920012f,0.399749994f,0.401549995f,0.403320014f,0.405050009f,0.406749994f,0.408389986f,0.409969985f,0.41148001f,0.412900001f,0.414209992f,0.415390015f,0.416429996f,0.417299986f,0.418000013f,0.418489993f,0.418769985f,0.418819994f,0.418669999f,0.418330014f,0.41782999f,0.417189986f,0.41644001f,0.415609986f,0.414709985f,0.413780004f,0.412829995f,0.411879987f,0.410930008f,0.409929991f,0.408859998f,0.407709986f,0.40643999f,0.405030012f,0.403459996f,0.401690006f,0.39971f,0.397500008f,0.395069987f,0.392459989f,0.389699996f,0.386819988f,0.383839995f,0.380789995f,0.377719998f,0.374630004f,0.371569991f,0.368559986f,0.365590006f,0.362679988f,0.359820008f,0.356999993f,0.354229987f,0.351500005f,0.348809987f,0.346170008f,0.34356001f,0.340990007f,0.338459998f,0.335960001f,0.333499998f,0.33107999f,0.328700006f,0.326350003f,0.324039996f,0.321759999f,0.319519997f,0.317319989f,0.315149993f,0.313039988f,0.310979992f,0.308970004f,0.307029992f,0.305159986f,0.303369999f,0.301660001f,0.300029993f,0.298489988f,0.297039986f,0.295679986f,0.294380009f,0.293159992f,0.291999996f,0.290899992f,0.289849997f,0.288839996f,0.287880003f,0.286949992f,0.286060005f,0.285219997f,0.28441f,0.283650011f,0.28294f,0.282290012f,0.281679988f,0.28114f,0.280660003f,0.280239999f,0.279879987f,0.279579997f,0.279339999f,0.279139996f,0.27899f,0.278890014f,0.278820008f,0.278789997f,0.278800011f,0.278840005f,0.278910011f,0.279009998f,0.279159993f,0.279350013f,0.279590011f,0.279879987f,0.280220002f,0.280609995f,0.281069994f,0.281590015f,0.282160014f,0.282790005f,0.283470005f,0.284189999f,0.284949988f,0.285739988f,0.286559999f,0.287409991f,0.288269997f,0.28915f,0.29005f,0.290980011f,0.291940004f,0.292950004f,0.294f,0.295120001f,0.296299994f,0.297560006f,0.298889995f,0.300309986f,0.30182001f,0.303409994f,0.305079997f,0.306829989f,0.308660001f,0.310559988f,0.312539995f,0.314579993f,0.316700011f,0.318879992f,0.321130008f,0.323460013f,0.32585001f,0.328319997f,0.330870003f,0.333499998f,0.336210012f,0.33901f,0.341890007f,0.344859987f,0.347920001f,0.351069987f,0.354310006f,0.357639998f,0.36105001f,0.364549994f,0.368140012f,0.371820003f,0.375580013f,0.379429996f,0.383359998f,0.387380004f,0.391479999f,0.395669997f,0.39993f,0.404289991f,0.408719987f,0.413230002f,0.41782999f,0.422509998f,0.427260011f,0.432110012f,0.437029988f,0.442039996f,0.447140008f,0.452320009f,0.457590014f,0.462949991f,0.468400002f,0.473940015f,0.479559988f,0.485249996f,0.490999997f,0.496789992f,0.502619982f,0.508469999f,0.514339983f,0.520200014f,0.526059985f,0.531899989f,0.537710011f,0.543500006f,0.549269974f,0.555019975f,0.560739994f,0.566429973f,0.572099984f,0.577750027f,0.58336997f,0.588959992f,0.594519973f,0.600030005f,0.605490029f,0.610880017f,0.616209984f,0.621460021f,0.626609981f,0.631680012f,0.636629999f,0.641470015f,0.646200001f,0.650810003f,0.655300021f,0.659680009f,0.663950026f,0.668089986f,0.672129989f,0.676039994f,0.679840028f,0.683520019f,0.68708998f,0.690540016f,0.693870008f,0.69709003f,0.700200021f,0.703190029f,0.706070006f,0.708829999f,0.711480021f,0.714020014f,0.716449976f,0.718789995f,0.72104001f,0.723209977f,0.725300014f,0.727330029f,0.729300022f,0.731209993f,0.733089983f,0.734929979f,0.73672998f,0.738489985f,0.74022001f,0.741890013f,0.743529975f,0.745109975f,0.746649981f,0.748139977f,0.749570012f,0.750949979f,0.752260029f,0.753520012f,0.754700005f,0.755810022f,0.756850004f,0.757799983f,0.758669972f,0.759450018f,0.760129988f,0.760720015f,0.761210024f,0.761629999f,0.761969984f,0.76226002f,0.762489974f,0.762669981f,0.762820005f,0.762950003f,0.763059974f,0.76315999f,0.76327002f,0.763390005f,0.763520002f,0.763689995f,0.763899982f,0.764150023f,0.764469981f,0.764840007f,0.765299976f,0.764989972f,0.765169978f,0.765349984f,0.765519977f,0.765699983f,0.765879989f,0.766049981f,0.766229987f,0.76639998f,0.766579986f,0.766749978f,0.766929984f,0.76710999f,0.767279983f,0.767459989f,0.767629981f,0.767809987f,0.76797998f,0.768159986f,0.768329978f,0.76849997f,0.768679976f,0.768850029f,0.769029975f,0.769200027f,0.769379973f,0.769550025f,0.769720018f,0.769900024f,0.770070016f,0.770250022f,0.770420015f,0.770590007f,0.770770013f,0.770940006f,0.771109998f,0.771290004f,0.771459997f,0.771629989f,0.771809995f,0.771979988f,0.77214998f,0.772319973f,0.772499979f,0.772669971f,0.772840023f,0.773010015f,0.773190022f,0.773360014f};
static const float REF_CES94[400] = {0.0610169992f,0.0621739998f,0.0633509979f,0.0645489991f,0.0657669976f,0.0670080036f,0.0682689995f,0.0695530027f,0.0708590001f,0.0721879974f,0.0735400021f,0.0749149993f,0.0763140023f,0.0777359977f,0.0791829973f,0.0806540027f,0.0821499974f,0.083672002f,0.0852190033f,0.0867919996f,0.0881000012f,0.0898220018f,0.0915710032f,0.093344003f,0.0951360017f,0.0969439968f,0.0987619981f,0.100589998f,0.102420002f,0.10424f,0.106069997f,0.107879996f,0.109679997f,0.11146f,0.113229997f,0.11496f,0.116669998f,0.118340001f,0.11998f,0.121569999f,0.123120002f,0.124609999f,0.126069993f,0.127470002f,0.128839999f,0.130160004f,0.131449997f,0.132699996f,0.133919999f,0.135120004f,0.136289999f,0.137429997f,0.13854f,0.139610007f,0.140640005f,0.141619995f,0.142539993f,0.14339f,0.144170001f,0.144859999f,0.145469993f,0.145989999f,0.146410003f,0.146750003f,0.147009999f,0.147180006f,0.147279993f,0.147310004f,0.147269994f,0.147170007f,0.147f,0.146779999f,0.146500006f,0.146160007f,0.14576f,0.145280004f,0.14474f,0.144119993f,0.143429995f,0.142649993f,0.141800001f,0.140860006f,0.139840007f,0.138750002f,0.137590006f,0.136370003f,0.135089993f,0.133770004f,0.132400006f,0.130989999f,0.129549995f,0.128079996f,0.126589999f,0.125060007f,0.123520002f,0.121940002f,0.120329998f,0.118699998f,0.117040001f,0.115340002f,0.113619998f,0.111869998f,0.110100001f,0.108319998f,0.106530003f,0.104759999f,0.103f,0.101279996f,0.0995900035f,0.0979510024f,0.0963689983f,0.0948539972f,0.0934009999f,0.0920059979f,0.0906639993f,0.0893680006f,0.0881130025f,0.0868949965f,0.0857079998f,0.0845459998f,0.083405003f,0.0822789967f,0.0811700001f,0.080077f,0.0790029988f,0.0779469982f,0.0769120008f,0.0758979991f,0.0749050006f,0.0739360005f,0.072991997f,0.0720719993f,0.0711769983f,0.0703079998f,0.0694639981f,0.0686450005f,0.0678509995f,0.0670820028f,0.0663390011f,0.0656199977f,0.0649269968f,0.0642590001f,0.0636160001f,0.0630009994f,0.0624129996f,0.0618540011f,0.0613240004f,0.0608239993f,0.0603559986f,0.0599200018f,0.0595160015f,0.0591459982f,0.0588099994f,0.0585069992f,0.0582359992f,0.0579969995f,0.05779f,0.0576139987f,0.0574689992f,0.0573550016f,0.0572700016f,0.0572159998f,0.057190001f,0.0571909994f,0.0572189987f,0.0572719984f,0.0573499985f,0.0574509986f,0.0575740002f,0.0577180013f,0.0578829981f,0.0580659993f,0.0582679994f,0.0584850013f,0.0587170012f,0.0589619987f,0.0592180006f,0.0594849996f,0.0597609989f,0.0600440018f,0.0603329986f,0.0606269985f,0.0609260015f,0.061232999f,0.0615479983f,0.0618739985f,0.0622109994f,0.0625609979f,0.0629250035f,0.063304998f,0.0637020022f,0.0641179979f,0.064553f,0.0650099963f,0.0654890016f,0.0659919977f,0.066519998f,0.0670740008f,0.0676560029f,0.0682670027f,0.0689079985f,0.069581002f,0.0702880025f,0.0710320026f,0.0718140006f,0.0726390034f,0.0735090002f,0.074424997f,0.075391002f,0.076410003f,0.0774839967f,0.0786150023f,0.0798090026f,0.0810699984f,0.0824029967f,0.0838129967f,0.0853049979f,0.086883001f,0.0885519981f,0.0903170034f,0.0921839997f,0.0941549987f,0.0962340012f,0.0984190032f,0.100709997f,0.10311f,0.105630003f,0.10825f,0.110979997f,0.11383f,0.116789997f,0.119860001f,0.123049997f,0.126369998f,0.129820004f,0.133410007f,0.137140006f,0.141029999f,0.145070001f,0.149269998f,0.153640002f,0.158179998f,0.162890002f,0.16776f,0.172769994f,0.17791f,0.183180004f,0.188559994f,0.194049999f,0.199630007f,0.205300003f,0.211040005f,0.216849998f,0.222749993f,0.228719994f,0.23477f,0.240899995f,0.247109994f,0.253399998f,0.25977999f,0.266240001f,0.272790015f,0.279419988f,0.286130011f,0.29291001f,0.29975f,0.30667001f,0.313630015f,0.320659995f,0.32773f,0.33484f,0.342000008f,0.349189997f,0.35642001f,0.363669991f,0.370959997f,0.37827f,0.385610014f,0.392969996f,0.400339991f,0.407730013f,0.415140003f,0.422549993f,0.429960012f,0.437359989f,0.444750011f,0.45212999f,0.459479988f,0.466809988f,0.47409001f,0.481339991f,0.48853001f,0.495680004f,0.502789974f,0.509850025f,0.516860008f,0.523829997f,0.530749977f,0.537630022f,0.544470012f,0.551270008f,0.558019996f,0.564729989f,0.571389973f,0.578000009f,0.584550023f,0.591040015f,0.597459972f,0.603810012f,0.610090017f,0.616299987f,0.622420013f,0.628449976f,0.63440001f,0.640250027f,0.646000028f,0.651650012f,0.657199979f,0.662630022f,0.667949975f,0.673160017f,0.679549992f,0.685039997f,0.690490007f,0.695879996f,0.701210022f,0.706499994f,0.71171999f,0.716899991f,0.722010016f,0.727069974f,0.732070029f,0.737010002f,0.741900027f,0.746720016f,0.751479983f,0.756190002f,0.760829985f,0.765410006f,0.769930005f,0.774389982f,0.778789997f,0.783119977f,0.787389994f,0.791610003f,0.795759976f,0.799849987f,0.803870022f,0.80783999f,0.811739981f,0.81558001f,0.819369972f,0.823090017f,0.82674998f,0.830349982f,0.833890021f,0.837369978f,0.840789974f,0.844150007f,0.847459972f,0.850709975f,0.853900015f,0.857029974f,0.860109985f,0.863129973f,0.866100013f,0.869009972f,0.871869981f,0.874670029f,0.877420008f,0.880119979f,0.882770002f,0.885370016f,0.887920022f,0.890410006f,0.892859995f,0.895259976f,0.897620022f,0.899919987f,0.902180016f,0.904399991f,0.906570017f,0.908689976f,0.910769999f,0.912810028f,0.914810002f,0.916760027f,0.918669999f,0.920549989f,0.922379971f,0.924179971f,0.925930023f,0.927649975f,0.929340005f,0.930980027f,0.932590008f,0.934170008f,0.935710013f,0.937219977f,0.938690007f};
static const float REF_CES95[400] = {0.0737179965f,0.0768529996f,0.0801099986f,0.0834930018f,0.0870049968f,0.0906499997f,0.094430998f,0.0983539969f,0.102420002f,0.106640004f,0.111000001f,0.115529999f,0.120209999f,0.125049993f,0.130070001f,0.135250002f,0.140599996f,0.146129996f,0.151840001f,0.157739997f,0.164279997f,0.170139998f,0.176339999f,0.182870001f,0.189689994f,0.196779996f,0.204119995f,0.211679995f,0.21943f,0.227349997f,0.235410005f,0.243589997f,0.251859993f,0.26019001f,0.268559992f,0.276950002f,0.285320014f,0.293650001f,0.301919997f,0.310099989f,0.318159997f,0.326090008f,0.333880007f,0.341529995f,0.349040002f,0.356429994f,0.363680005f,0.370799989f,0.377799988f,0.384680003f,0.391440004f,0.398070008f,0.404549986f,0.410829991f,0.416889995f,0.422670007f,0.428149998f,0.433290005f,0.438039988f,0.442380011f,0.446269989f,0.449669987f,0.452609986f,0.455130011f,0.457269996f,0.45905f,0.460509986f,0.461699992f,0.462630004f,0.463349998f,0.4639f,0.464300007f,0.464560002f,0.464700013f,0.464720011f,0.464639992f,0.464450002f,0.464179993f,0.463809997f,0.463380009f,0.462879986f,0.462309986f,0.461679995f,0.460970014f,0.460170001f,0.459259987f,0.458240002f,0.45708999f,0.45581001f,0.454380006f,0.452789992f,0.451029986f,0.449129999f,0.44709f,0.444940001f,0.442690015f,0.440369993f,0.43799001f,0.435559988f,0.433120012f,0.430669993f,0.428240001f,0.425819993f,0.423409998f,0.421009988f,0.41861999f,0.416220009f,0.413830012f,0.411440015f,0.40902999f,0.406619996f,0.404199988f,0.401769996f,0.399320006f,0.396860003f,0.39436999f,0.391869992f,0.389349997f,0.386810005f,0.384249985f,0.381660014f,0.379040003f,0.376399994f,0.373730004f,0.371039987f,0.368319988f,0.365590006f,0.362830013f,0.360060006f,0.357259989f,0.354449987f,0.351610005f,0.348780006f,0.345939994f,0.343120009f,0.340319991f,0.337559998f,0.33484f,0.33217001f,0.329560012f,0.327030003f,0.324580014f,0.322219998f,0.319929987f,0.31773001f,0.315620005f,0.313580006f,0.311619997f,0.309749991f,0.307960004f,0.306239992f,0.304610014f,0.303050011f,0.301560014f,0.300150007f,0.298799992f,0.297520012f,0.296299994f,0.295139998f,0.294039994f,0.292989999f,0.291999996f,0.291049987f,0.290149987f,0.289290011f,0.288480014f,0.287699997f,0.28696999f,0.286260009f,0.285589993f,0.284940004f,0.28433001f,0.283740014f,0.283199996f,0.282709986f,0.282270014f,0.281899989f,0.281590015f,0.28136f,0.281219989f,0.281170011f,0.281219989f,0.28136f,0.281610012f,0.281949997f,0.282380015f,0.282909989f,0.283529997f,0.284249991f,0.285059988f,0.285959989f,0.286949992f,0.288049996f,0.28926f,0.290589988f,0.292059988f,0.293680012f,0.295459986f,0.297399998f,0.299529999f,0.301860005f,0.304390013f,0.307119995f,0.310070008f,0.313239992f,0.316619992f,0.320219994f,0.324050009f,0.328110009f,0.33239001f,0.336919993f,0.341670007f,0.346659988f,0.35187f,0.357300013f,0.36293f,0.368770003f,0.374799997f,0.38102001f,0.387419999f,0.39399001f,0.40072f,0.407609999f,0.414649993f,0.421840012f,0.429149985f,0.4366f,0.444160014f,0.45183f,0.459600002f,0.467460006f,0.475410014f,0.483420014f,0.491459996f,0.499489993f,0.507499993f,0.515450001f,0.523320019f,0.531080008f,0.538689971f,0.546140015f,0.553390026f,0.560459971f,0.567359984f,0.574090004f,0.580680013f,0.587140024f,0.593469977f,0.59969002f,0.60582f,0.611869991f,0.617850006f,0.623759985f,0.629620016f,0.635429978f,0.641189992f,0.646929979f,0.652629972f,0.65832001f,0.663990021f,0.669650018f,0.675320029f,0.680980027f,0.686640024f,0.692300022f,0.697960019f,0.703610003f,0.709249973f,0.71487999f,0.720499992f,0.726109982f,0.731710017f,0.737280011f,0.742799997f,0.748269975f,0.753669977f,0.758970022f,0.764169991f,0.769259989f,0.774200022f,0.778999984f,0.783640027f,0.788110018f,0.792410016f,0.796530008f,0.800480008f,0.804239988f,0.807820022f,0.81121999f,0.814419985f,0.817420006f,0.820240021f,0.822870016f,0.825339973f,0.827669978f,0.829879999f,0.831990004f,0.834010005f,0.835959971f,0.837870002f,0.839739978f,0.841610014f,0.84345001f,0.845269978f,0.847060025f,0.848810017f,0.850499988f,0.852150023f,0.853720009f,0.855229974f,0.856660008f,0.85799998f,0.859250009f,0.860400021f,0.861429989f,0.862349987f,0.863139987f,0.863810003f,0.864329994f,0.864700019f,0.86492002f,0.86759001f,0.868579984f,0.869560003f,0.870540023f,0.871510029f,0.872470021f,0.873430014f,0.874390006f,0.875329971f,0.876269996f,0.877210021f,0.878139973f,0.87905997f,0.879980028f,0.880890012f,0.881789982f,0.882690012f,0.883580029f,0.884469986f,0.885349989f,0.886219978f,0.887090027f,0.887960017f,0.888809979f,0.889660001f,0.890510023f,0.891349971f,0.89218998f,0.89301002f,0.893840015f,0.894659996f,0.895470023f,0.896269977f,0.897080004f,0.897870004f,0.898660004f,0.899450004f,0.90022999f,0.901000023f,0.901769996f,0.902530015f,0.903289974f,0.904039979f,0.904789984f,0.905529976f,0.906270027f,0.907000005f,0.907729983f,0.908450007f,0.909169972f,0.909879982f,0.910579979f,0.91128999f,0.911979973f,0.912670016f,0.91336f,0.914040029f,0.914719999f,0.915390015f,0.916059971f,0.916719973f,0.917379975f,0.918030024f,0.918680012f,0.919319987f,0.919960022f,0.920599997f,0.921230018f,0.921850026f,0.922469974f,0.923089981f,0.923699975f,0.924310029f,0.924910009f,0.925509989f,0.926100016f,0.926689982f,0.927280009f,0.927860022f};
static const float REF_CES96[400] = {0.338510007f,0.343039989f,0.347600013f,0.352189988f,0.356810004f,0.361449987f,0.366120011f,0.370810002f,0.375530005f,0.380270004f,0.385039985f,0.389829993f,0.394630015f,0.399459988f,0.404309988f,0.409179986f,0.41407001f,0.418969989f,0.423889995f,0.428820014f,0.433939993f,0.438690007f,0.443549991f,0.448500007f,0.45352f,0.458590001f,0.463690013f,0.468809992f,0.473930001f,0.47902f,0.484079987f,0.489069998f,0.493990004f,0.498809993f,0.503509998f,0.508080006f,0.512499988f,0.516759992f,0.520820022f,0.524670005f,0.528299987f,0.531700015f,0.534879982f,0.53786999f,0.540700018f,0.54339999f,0.546000004f,0.548520029f,0.550999999f,0.553449988f,0.555920005f,0.558420002f,0.56092f,0.563390017f,0.565789998f,0.568099976f,0.570280015f,0.572300017f,0.574109972f,0.575699985f,0.577019989f,0.578050017f,0.578800023f,0.579289973f,0.579550028f,0.579599977f,0.579450011f,0.57911998f,0.578649998f,0.578040004f,0.57731998f,0.576520026f,0.575619996f,0.574639976f,0.573589981f,0.572449982f,0.571240008f,0.569959998f,0.568610013f,0.567189991f,0.565710008f,0.564159989f,0.562550008f,0.560880005f,0.559130013f,0.557309985f,0.555410028f,0.553430021f,0.551360011f,0.549199998f,0.546949983f,0.544610023f,0.542180002f,0.539659977f,0.53707999f,0.534430027f,0.531719983f,0.52895999f,0.526160002f,0.523320019f,0.52046001f,0.517579973f,0.514680028f,0.51177001f,0.508849978f,0.505930007f,0.503009975f,0.500100017f,0.497189999f,0.494289994f,0.491409987f,0.488550007f,0.485709995f,0.482879996f,0.480080009f,0.477290004f,0.474519998f,0.471760005f,0.469020009f,0.466300011f,0.463589996f,0.460900009f,0.458220005f,0.455549985f,0.452890009f,0.45025f,0.447620004f,0.444999993f,0.442389995f,0.43979001f,0.43720001f,0.434619993f,0.43204999f,0.429520011f,0.427029997f,0.424589992f,0.422219992f,0.419910014f,0.417690009f,0.415569991f,0.413549989f,0.411650002f,0.409859985f,0.408190012f,0.406630009f,0.405169994f,0.403829992f,0.402590007f,0.401450008f,0.40042001f,0.399489999f,0.398660004f,0.397920012f,0.397269994f,0.396719992f,0.39625001f,0.39587f,0.395559996f,0.395339996f,0.395190001f,0.395110011f,0.395099998f,0.39515999f,0.395289987f,0.395489991f,0.395749986f,0.396090001f,0.396499991f,0.396990001f,0.397540003f,0.398160011f,0.398860008f,0.399639994f,0.400489986f,0.401419997f,0.402440012f,0.403560013f,0.404760003f,0.40606001f,0.407460004f,0.408969998f,0.410580009f,0.412290007f,0.414099991f,0.416009992f,0.418000013f,0.420080006f,0.422239989f,0.424470007f,0.426779985f,0.429149985f,0.431580007f,0.434080005f,0.436650008f,0.439310014f,0.442059994f,0.444900006f,0.447849989f,0.450910002f,0.454079986f,0.457370013f,0.460799992f,0.464349985f,0.468030006f,0.47183001f,0.475739986f,0.479759991f,0.483900011f,0.488139987f,0.49248001f,0.49691999f,0.501450002f,0.506079972f,0.510800004f,0.515619993f,0.520529985f,0.525539994f,0.53065002f,0.535849988f,0.541149974f,0.546549976f,0.552039981f,0.557630002f,0.563319981f,0.569109976f,0.574999988f,0.580990016f,0.587080002f,0.593270004f,0.599560022f,0.605960011f,0.612460017f,0.619040012f,0.625680029f,0.632369995f,0.639090002f,0.645820022f,0.652530015f,0.659210026f,0.66584003f,0.672410011f,0.678879976f,0.685270011f,0.69155997f,0.69777f,0.703869998f,0.709879994f,0.715799987f,0.72161001f,0.727330029f,0.732940018f,0.738449991f,0.743860006f,0.749159992f,0.754350007f,0.759429991f,0.764410019f,0.769270003f,0.774020016f,0.778659999f,0.783179998f,0.787590027f,0.791880012f,0.796050012f,0.800109982f,0.804050028f,0.807869971f,0.811580002f,0.81516999f,0.818650007f,0.822009981f,0.825259984f,0.828390002f,0.831390023f,0.834280014f,0.837040007f,0.839680016f,0.842190027f,0.844560027f,0.846809983f,0.848919988f,0.850889981f,0.852729976f,0.854439974f,0.856029987f,0.857509971f,0.858879983f,0.86014998f,0.861320019f,0.862399995f,0.863390028f,0.864300013f,0.865149975f,0.865949988f,0.866729975f,0.867489994f,0.868260026f,0.869050026f,0.869889975f,0.870779991f,0.871739984f,0.872789979f,0.873920023f,0.875109971f,0.876349986f,0.877610028f,0.878899992f,0.880180001f,0.881439984f,0.882679999f,0.883870006f,0.88499999f,0.886049986f,0.887009978f,0.887870014f,0.888599992f,0.889190018f,0.88963002f,0.889900029f,0.889989972f,0.889880002f,0.892459989f,0.893239975f,0.894010007f,0.89477998f,0.895539999f,0.896300018f,0.897050023f,0.897800028f,0.89854002f,0.899280012f,0.90000999f,0.900740027f,0.901459992f,0.902180016f,0.902899981f,0.903609991f,0.904309988f,0.905009985f,0.905709982f,0.906400025f,0.907090008f,0.907769978f,0.908450007f,0.909120023f,0.909789979f,0.910449982f,0.911109984f,0.911769986f,0.912419975f,0.913070023f,0.913709998f,0.914349973f,0.914979994f,0.915610015f,0.916239977f,0.916859984f,0.917479992f,0.918089986f,0.91869998f,0.91930002f,0.9199f,0.92049998f,0.921090007f,0.921679974f,0.922259986f,0.922839999f,0.923420012f,0.923990011f,0.92456001f,0.92513001f,0.925689995f,0.926240027f,0.926800013f,0.927349985f,0.927890003f,0.928430021f,0.928969979f,0.929499984f,0.930040002f,0.930559993f,0.931079984f,0.931599975f,0.932120025f,0.932630002f,0.93313998f,0.933650017f,0.934149981f,0.93463999f,0.935140014f,0.935630023f,0.936119974f,0.936600029f,0.937080026f,0.937560022f,0.938030005f,0.938499987f,0.938970029f,0.939429998f,0.939890027f};
static const float REF_CES97[400] = {0.119309999f,0.12173f,0.124190003f,0.12669f,0.129240006f,0.131830007f,0.134460002f,0.137130007f,0.139860004f,0.142619997f,0.145439997f,0.148289993f,0.151199996f,0.154149994f,0.15715f,0.160190001f,0.163279995f,0.166419998f,0.169609994f,0.172849998f,0.176599994f,0.179189995f,0.182410002f,0.186120003f,0.190200001f,0.194509998f,0.198909998f,0.203260005f,0.207440004f,0.211290002f,0.214699998f,0.217549995f,0.21988f,0.221750006f,0.223230004f,0.224380001f,0.225270003f,0.225960001f,0.226520002f,0.227009997f,0.227500007f,0.228039995f,0.228630006f,0.229269996f,0.229939997f,0.230629995f,0.231350005f,0.232069999f,0.232789993f,0.233510002f,0.234200001f,0.234870002f,0.235499993f,0.236080006f,0.236609995f,0.237069994f,0.237460002f,0.237770006f,0.237979993f,0.238100007f,0.238100007f,0.237979993f,0.237749994f,0.237379998f,0.236880004f,0.236249998f,0.235469997f,0.234549999f,0.233490005f,0.232270002f,0.230900005f,0.229369998f,0.227689996f,0.225869998f,0.223910004f,0.221819997f,0.219620004f,0.217309996f,0.214900002f,0.212390006f,0.209800005f,0.20713f,0.204410002f,0.201619998f,0.198799998f,0.195950001f,0.193090007f,0.190219998f,0.187350005f,0.184509993f,0.181700006f,0.178929999f,0.176200002f,0.173490003f,0.170809999f,0.168139994f,0.165490001f,0.162829995f,0.160170004f,0.15749f,0.154799998f,0.152079999f,0.149330005f,0.146559998f,0.143759996f,0.140929997f,0.138080001f,0.135199994f,0.132290006f,0.129360005f,0.126399994f,0.12342f,0.12043f,0.117449999f,0.114519998f,0.11163f,0.108829997f,0.106119998f,0.103540003f,0.101089999f,0.0988000035f,0.0966890007f,0.0947519988f,0.0929839984f,0.0913780034f,0.0899280012f,0.0886280015f,0.0874710009f,0.0864519998f,0.0855640024f,0.0847999975f,0.0841529965f,0.0836030021f,0.0831319988f,0.0827179998f,0.0823410004f,0.0819810033f,0.0816169977f,0.0812290013f,0.0807970017f,0.0803000033f,0.0797209963f,0.0790600032f,0.0783170015f,0.0774940029f,0.0765940025f,0.0756189972f,0.0745700002f,0.0734490007f,0.0722580031f,0.0710000023f,0.0696789995f,0.0683119968f,0.0669199973f,0.0655239969f,0.0641440004f,0.0627999976f,0.0615129992f,0.060304001f,0.0591930002f,0.0582000017f,0.0573499985f,0.0566839986f,0.0562460013f,0.0560799986f,0.0562309995f,0.0567440018f,0.0576630011f,0.0590320006f,0.0608960018f,0.0632999986f,0.0662799999f,0.0698390007f,0.0739739984f,0.0786809996f,0.0839560032f,0.0897940025f,0.0961920023f,0.103139997f,0.110650003f,0.118699998f,0.127279997f,0.136299998f,0.145659998f,0.155249998f,0.164979994f,0.17475f,0.184440002f,0.193969995f,0.203219995f,0.212099999f,0.220520005f,0.22845f,0.235890001f,0.242829993f,0.249270007f,0.255180001f,0.26056999f,0.26541999f,0.269739985f,0.273499995f,0.276710004f,0.279399991f,0.281599998f,0.283340007f,0.284660012f,0.285589993f,0.286159992f,0.286419988f,0.286379993f,0.2861f,0.285589993f,0.284889996f,0.284009993f,0.282979995f,0.281809986f,0.280530006f,0.279159993f,0.277709991f,0.276219994f,0.274699986f,0.273169994f,0.271649987f,0.270139992f,0.268649995f,0.267210007f,0.265810013f,0.264470011f,0.263190001f,0.261999995f,0.260899991f,0.259900004f,0.25898999f,0.258190006f,0.257470012f,0.256850004f,0.25632f,0.255870014f,0.255499989f,0.255210012f,0.254999995f,0.254860014f,0.254799992f,0.254790008f,0.25485f,0.254960001f,0.255129993f,0.25534001f,0.255589992f,0.255879998f,0.256199986f,0.256550014f,0.256929994f,0.257360011f,0.257829994f,0.258350015f,0.258940011f,0.25959f,0.260309994f,0.261110008f,0.261999995f,0.262980014f,0.264050007f,0.265199989f,0.266449988f,0.267780006f,0.269199997f,0.270700008f,0.272289991f,0.273950011f,0.275700003f,0.277520001f,0.279410005f,0.281340003f,0.283289999f,0.285250008f,0.28718999f,0.289110005f,0.290980011f,0.292780012f,0.294499993f,0.296119988f,0.297619998f,0.299010009f,0.300280005f,0.301420003f,0.30241999f,0.303270012f,0.303970009f,0.304520011f,0.304899991f,0.305110008f,0.30517f,0.305070013f,0.304850012f,0.304500014f,0.304040015f,0.303490013f,0.302859992f,0.302159995f,0.301400006f,0.300590008f,0.299730003f,0.298810005f,0.297809988f,0.296730012f,0.295549989f,0.294270009f,0.292869985f,0.291350007f,0.289700001f,0.287910014f,0.286020011f,0.284079999f,0.282130003f,0.280209988f,0.278380007f,0.276679993f,0.275150001f,0.27384001f,0.272799999f,0.271189988f,0.269800007f,0.268420011f,0.267049998f,0.265679985f,0.264310002f,0.262950003f,0.261590004f,0.260239989f,0.258890003f,0.257550001f,0.256209999f,0.254880011f,0.253549993f,0.252220005f,0.2509f,0.249579996f,0.248270005f,0.246969998f,0.245660007f,0.244369999f,0.243070006f,0.241789997f,0.240500003f,0.239219993f,0.237949997f,0.236680001f,0.235420004f,0.234150007f,0.232899994f,0.231649995f,0.230399996f,0.229159996f,0.227919996f,0.226689994f,0.225470006f,0.224240005f,0.223030001f,0.221809998f,0.220599994f,0.219400004f,0.218199998f,0.217010006f,0.21582f,0.214629993f,0.21345f,0.212280005f,0.211109996f,0.209940001f,0.208780006f,0.207629994f,0.206469998f,0.205329999f,0.204180002f,0.203050002f,0.201910004f,0.200790003f,0.199660003f,0.198550001f,0.19743f,0.196319997f,0.195219994f,0.194120005f,0.193020001f,0.191929996f,0.190850005f,0.189769998f,0.188690007f,0.187619999f,0.186550006f,0.185489997f,0.184430003f,0.183379993f,0.182329997f,0.181290001f,0.180250004f,0.179220006f,0.178189993f,0.177159995f};
static const float REF_CES98[400] = {0.274250001f,0.275979996f,0.277720004f,0.279460013f,0.281210005f,0.282970011f,0.284729987f,0.286500007f,0.28828001f,0.290060014f,0.291850001f,0.293650001f,0.295450002f,0.297259986f,0.299080014f,0.300900012f,0.302729994f,0.304560006f,0.306400001f,0.30825001f,0.310400009f,0.311789989f,0.313540012f,0.31558001f,0.317849994f,0.320279986f,0.322820008f,0.325399995f,0.327960014f,0.330440015f,0.33276999f,0.334910005f,0.336870015f,0.338660002f,0.340310007f,0.341839999f,0.34325999f,0.344610006f,0.345889986f,0.347130001f,0.348360002f,0.34957999f,0.350789994f,0.351980001f,0.353130013f,0.35424f,0.355269998f,0.356240004f,0.357109994f,0.35789001f,0.358550012f,0.359079987f,0.359479994f,0.359730005f,0.359820008f,0.359750003f,0.359490007f,0.359050006f,0.358410001f,0.357569993f,0.3565f,0.355210006f,0.353700012f,0.351969987f,0.350030005f,0.34788999f,0.345560014f,0.343039989f,0.340330005f,0.337449998f,0.334399998f,0.33118999f,0.327829987f,0.324330002f,0.320719987f,0.316989988f,0.31318f,0.309289992f,0.305330008f,0.301319987f,0.297280014f,0.29321f,0.289130002f,0.285039991f,0.28095001f,0.276870012f,0.272790015f,0.268730015f,0.264699996f,0.260699987f,0.25672999f,0.252810001f,0.248940006f,0.245120004f,0.241370007f,0.237680003f,0.234070003f,0.230540007f,0.2271f,0.223739997f,0.220489994f,0.217340007f,0.214279994f,0.211309999f,0.208430007f,0.205610007f,0.202859998f,0.200159997f,0.197500005f,0.194890007f,0.192300007f,0.189740002f,0.187189996f,0.184670001f,0.182180002f,0.179700002f,0.177239999f,0.174810007f,0.172399998f,0.17001f,0.167649999f,0.165309995f,0.163010001f,0.160750002f,0.158549994f,0.156420007f,0.154379994f,0.152429998f,0.150580004f,0.148859993f,0.147269994f,0.145820007f,0.144510001f,0.143329993f,0.142279997f,0.14136f,0.140560001f,0.139880002f,0.139310002f,0.138850003f,0.138490006f,0.138229996f,0.138060004f,0.137950003f,0.137899995f,0.137879997f,0.137889996f,0.137899995f,0.137899995f,0.137869999f,0.137810007f,0.137689993f,0.13752f,0.137309998f,0.13707f,0.136790007f,0.136490002f,0.13617f,0.135839999f,0.135509998f,0.135179996f,0.134859994f,0.134570003f,0.134330004f,0.134149998f,0.134049997f,0.134049997f,0.134179994f,0.134430006f,0.134839997f,0.135429993f,0.136209995f,0.137189999f,0.138410002f,0.13989f,0.141629994f,0.143669993f,0.146029994f,0.148719996f,0.151769996f,0.155190006f,0.159009993f,0.163230002f,0.167860001f,0.172900006f,0.178350002f,0.184239998f,0.190549999f,0.197290003f,0.204469994f,0.212099999f,0.220170006f,0.228660002f,0.237529993f,0.246749997f,0.256289989f,0.266119987f,0.276199996f,0.286509991f,0.296999991f,0.30765f,0.318419993f,0.329279989f,0.340200007f,0.351130009f,0.362049997f,0.372920007f,0.383709997f,0.39436999f,0.404879987f,0.415199995f,0.425300002f,0.435140014f,0.444680005f,0.453900009f,0.462760001f,0.47123f,0.479270011f,0.48684001f,0.493919998f,0.500469983f,0.506470025f,0.511929989f,0.516879976f,0.521369994f,0.525409997f,0.529039979f,0.532289982f,0.535189986f,0.537769973f,0.540059984f,0.542089999f,0.543869972f,0.545440018f,0.546790004f,0.547959983f,0.548950016f,0.549790025f,0.550480008f,0.551060021f,0.551540017f,0.55193001f,0.552259982f,0.552529991f,0.552789986f,0.553030014f,0.553290009f,0.553579986f,0.553919971f,0.554329991f,0.554840028f,0.555450022f,0.55618f,0.557039976f,0.558009982f,0.559119999f,0.560360014f,0.561739981f,0.563269973f,0.564939976f,0.566770017f,0.568759978f,0.570909977f,0.573220015f,0.575709999f,0.578379989f,0.581229985f,0.58427f,0.587490022f,0.590919971f,0.59454f,0.598370016f,0.602389991f,0.606589973f,0.610949993f,0.615480006f,0.620140016f,0.624930024f,0.629840016f,0.634859979f,0.639959991f,0.645139992f,0.650399983f,0.655719995f,0.661109984f,0.666549981f,0.672039986f,0.677579999f,0.683149993f,0.688759983f,0.694389999f,0.700039983f,0.70569998f,0.711350024f,0.716970026f,0.722549975f,0.728070021f,0.733519971f,0.738879979f,0.744120002f,0.749249995f,0.754239976f,0.759109974f,0.763849974f,0.76849997f,0.773060024f,0.777530015f,0.781939983f,0.786300004f,0.790610015f,0.794889987f,0.799139977f,0.803319991f,0.807389975f,0.811280012f,0.814939976f,0.81832999f,0.821399987f,0.824090004f,0.826359987f,0.82814002f,0.830940008f,0.833299994f,0.83563f,0.837939978f,0.840219975f,0.842480004f,0.844709992f,0.84691f,0.84908998f,0.851249993f,0.853370011f,0.855480015f,0.857550025f,0.859610021f,0.861630023f,0.86364001f,0.865620017f,0.867569983f,0.869499981f,0.871410012f,0.873290002f,0.875150025f,0.876980007f,0.878790021f,0.880580008f,0.882350028f,0.884090006f,0.885810018f,0.887510002f,0.889190018f,0.890839994f,0.892480016f,0.894089997f,0.89568001f,0.897249997f,0.898800015f,0.900319993f,0.901830018f,0.903320014f,0.904779971f,0.906229973f,0.907660007f,0.909060001f,0.910449982f,0.911819994f,0.91316998f,0.914499998f,0.915809989f,0.917110026f,0.918380022f,0.919640005f,0.92088002f,0.922100008f,0.923309982f,0.924499989f,0.925670028f,0.92681998f,0.927959979f,0.929080009f,0.930190027f,0.931280017f,0.93234998f,0.933409989f,0.934459984f,0.935479999f,0.936500013f,0.937489986f,0.93848002f,0.939450026f,0.940400004f,0.941340029f,0.942269981f,0.943180025f,0.944079995f,0.944959998f,0.945840001f,0.946699977f,0.947539985f,0.948379993f};
static const float REF_CES99[400] = {0.169579998f,0.171399996f,0.173230007f,0.175080001f,0.176949993f,0.178819999f,0.180720001f,0.182630002f,0.184560001f,0.186499998f,0.188460007f,0.19043f,0.192420006f,0.194419995f,0.196439996f,0.198479995f,0.200529993f,0.202600002f,0.204679996f,0.206780002f,0.209199995f,0.21085f,0.212899998f,0.215240002f,0.217789993f,0.22044f,0.223100007f,0.225669995f,0.228060007f,0.230169997f,0.231900007f,0.233180001f,0.234040007f,0.234520003f,0.234679997f,0.234569997f,0.234219998f,0.233710006f,0.233060002f,0.232350007f,0.231600001f,0.230869994f,0.230149999f,0.229420006f,0.228689998f,0.227939993f,0.227139995f,0.22631f,0.225409999f,0.224450007f,0.223399997f,0.222259998f,0.221039996f,0.219750002f,0.218380004f,0.216949999f,0.21548f,0.213949993f,0.212390006f,0.210810006f,0.209199995f,0.20758f,0.205950007f,0.20431f,0.202659994f,0.201000005f,0.199330002f,0.19765f,0.195969999f,0.194289997f,0.192599997f,0.190909997f,0.189209998f,0.187519997f,0.185829997f,0.184139997f,0.182449996f,0.180769995f,0.179110005f,0.177450001f,0.175799996f,0.174170002f,0.172539994f,0.170929998f,0.169330001f,0.167730004f,0.166140005f,0.164550006f,0.162970006f,0.161390007f,0.159799993f,0.158209994f,0.156619996f,0.155029997f,0.15343f,0.151830003f,0.150230005f,0.148629993f,0.147019997f,0.145410001f,0.143800005f,0.142189994f,0.140579998f,0.138970003f,0.137380004f,0.135810003f,0.134259999f,0.132740006f,0.131249994f,0.129810005f,0.128399998f,0.127039999f,0.125729993f,0.124459997f,0.123230003f,0.122040004f,0.12088f,0.119740002f,0.118639998f,0.117559999f,0.116499998f,0.115460001f,0.114430003f,0.113399997f,0.112389997f,0.111369997f,0.110339999f,0.109310001f,0.108259998f,0.107189998f,0.1061f,0.104979999f,0.103840001f,0.102679998f,0.101499997f,0.100319996f,0.0991289988f,0.0979370028f,0.0967480019f,0.0955680013f,0.0944000036f,0.0932490006f,0.0921220034f,0.0910239965f,0.0899619982f,0.0889429972f,0.0879720002f,0.0870560035f,0.0862009972f,0.0854130015f,0.0847000033f,0.0840649977f,0.0835079998f,0.083025001f,0.0826139972f,0.0822720006f,0.0819960013f,0.0817840025f,0.0816320032f,0.0815389976f,0.0815000013f,0.0815130025f,0.0815699995f,0.0816640034f,0.0817880034f,0.0819320008f,0.0820899978f,0.0822530016f,0.0824149996f,0.0825660005f,0.0826999992f,0.0828099996f,0.0829000026f,0.0829730034f,0.0830340013f,0.0830880031f,0.0831379965f,0.0831900015f,0.0832479969f,0.0833169967f,0.0834000036f,0.0835039988f,0.0836429968f,0.0838290006f,0.084077999f,0.0844049975f,0.0848229975f,0.0853469968f,0.085992001f,0.0867709965f,0.0877000019f,0.0887930021f,0.0900629982f,0.0915250033f,0.093193002f,0.0950800031f,0.0972009972f,0.0995699987f,0.102200001f,0.105109997f,0.1083f,0.1118f,0.115620002f,0.119769998f,0.12427f,0.129140005f,0.134379998f,0.140029997f,0.146090001f,0.152569994f,0.159500003f,0.166879997f,0.174679995f,0.182860002f,0.191379994f,0.200200006f,0.209289998f,0.218600005f,0.228100002f,0.237749994f,0.247500002f,0.25733f,0.26721999f,0.277159989f,0.287160009f,0.297190011f,0.307249993f,0.31735f,0.327450007f,0.337579995f,0.3477f,0.357820004f,0.367909998f,0.377959996f,0.387930006f,0.397819996f,0.407590002f,0.41723001f,0.42671001f,0.43599999f,0.445100009f,0.453979999f,0.46261999f,0.471029997f,0.479200006f,0.487120003f,0.494789988f,0.502189994f,0.509339988f,0.51621002f,0.522800028f,0.529110014f,0.535139978f,0.540899992f,0.546379983f,0.551590025f,0.556540012f,0.56121999f,0.565630019f,0.569790006f,0.573700011f,0.577359974f,0.580770016f,0.58397001f,0.586950004f,0.589749992f,0.59236002f,0.594810009f,0.597100019f,0.599259973f,0.601300001f,0.60323f,0.605050027f,0.606769979f,0.608389974f,0.609920025f,0.61135f,0.612689972f,0.613950014f,0.61510998f,0.61619997f,0.617209971f,0.618139982f,0.619009972f,0.619819999f,0.620570004f,0.621280015f,0.621949971f,0.622590005f,0.623199999f,0.62379998f,0.624379992f,0.624949992f,0.625500023f,0.626039982f,0.626559973f,0.627049983f,0.627529979f,0.627979994f,0.628400028f,0.628799975f,0.629170001f,0.629509985f,0.629830003f,0.630129993f,0.630410016f,0.630680025f,0.63094002f,0.631190002f,0.631449997f,0.631699979f,0.631959975f,0.632210016f,0.632459998f,0.63270998f,0.632939994f,0.633159995f,0.633360028f,0.633530021f,0.633679986f,0.63380003f,0.63398999f,0.634150028f,0.634310007f,0.634469986f,0.634630024f,0.634790003f,0.634940028f,0.635100007f,0.635259986f,0.635420024f,0.635580003f,0.635739982f,0.635900021f,0.636059999f,0.636219978f,0.636380017f,0.636539996f,0.636699975f,0.636860013f,0.637019992f,0.637179971f,0.637340009f,0.637499988f,0.637660027f,0.637820005f,0.637969971f,0.638130009f,0.638289988f,0.638450027f,0.638610005f,0.638769984f,0.638930023f,0.639090002f,0.63924998f,0.639410019f,0.639559984f,0.639720023f,0.639880002f,0.64003998f,0.640200019f,0.640359998f,0.640519977f,0.640680015f,0.64082998f,0.640990019f,0.641149998f,0.641309977f,0.641470015f,0.641629994f,0.641789973f,0.641939998f,0.642099977f,0.642260015f,0.642419994f,0.642579973f,0.642740011f,0.642889977f,0.643050015f,0.643209994f,0.643369973f,0.643530011f,0.643679976f,0.643840015f,0.643999994f,0.644159973f,0.644320011f,0.644469976f,0.644630015f,0.644789994f,0.644949973f,0.645110011f,0.645259976f,0.645420015f,0.645579994f,0.645739973f,0.645889997f,0.646049976f,0.646210015f,0.646369994f};
static const float REF_Macbeth01[400] = {0.0547457784f,0.0551038794f,0.0554619804f,0.0558200814f,0.0561781861f,0.0565362871f,0.0568943918f,0.0572524928f,0.0576105937f,0.0579686947f,0.0583267994f,0.0586104952f,0.0588941909f,0.0591778867f,0.0594615825f,0.0597452782f,0.0600289777f,0.0603126734f,0.0605963692f,0.060880065f,0.0611637607f,0.0612858608f,0.0614079647f,0.0615300648f,0.0616521649f,0.061774265f,0.0618963651f,0.0620184653f,0.0621405654f,0.0622626692f,0.0623847693f,0.0623773672f,0.062369965f,0.0623625629f,0.0623551607f,0.0623477586f,0.0623403564f,0.062332958f,0.0623255558f,0.0623181537f,0.0623107515f,0.0622866787f,0.0622626059f,0.0622385368f,0.0622144602f,0.0621903911f,0.0621663183f,0.0621422455f,0.0621181726f,0.0620940998f,0.062070027f,0.0620458797f,0.0620217286f,0.0619975813f,0.0619734302f,0.0619492829f,0.0619251318f,0.0619009845f,0.0618768334f,0.0618526824f,0.0618285351f,0.0618042536f,0.0617799722f,0.0617556907f,0.0617314093f,0.0617071278f,0.0616828464f,0.0616585612f,0.0616342835f,0.0616099983f,0.0615857169f,0.0615812875f,0.0615768582f,0.0615724251f,0.0615679957f,0.0615635626f,0.0615591332f,0.0615547039f,0.0615502708f,0.0615458414f,0.0615414083f,0.0615495816f,0.0615577511f,0.0615659207f,0.0615740903f,0.0615822636f,0.0615904331f,0.0615986027f,0.0616067722f,0.0616149455f,0.0616231151f,0.0616635606f,0.0617040098f,0.0617444552f,0.0617849007f,0.0618253462f,0.0618657917f,0.0619062372f,0.0619466864f,0.0619871318f,0.0620275773f,0.0621212423f,0.0622149073f,0.0623085722f,0.0624022335f,0.0624958985f,0.0625895634f,0.0626832247f,0.0627768934f,0.0628705546f,0.0629642233f,0.0631858781f,0.0634075403f,0.0636291951f,0.0638508573f,0.0640725121f,0.0642941743f,0.0645158291f,0.0647374913f,0.0649591461f,0.0651808083f,0.0656898692f,0.0661989376f,0.066708006f,0.0672170669f,0.0677261353f,0.0682351962f,0.0687442645f,0.0692533255f,0.0697623938f,0.0702714622f,0.0708838999f,0.0714963451f,0.0721087828f,0.072721228f,0.0733336657f,0.0739461109f,0.0745585561f,0.0751709938f,0.075783439f,0.0763958767f,0.0767053589f,0.0770148337f,0.0773243159f,0.0776337981f,0.0779432729f,0.0782527551f,0.0785622299f,0.0788717121f,0.0791811943f,0.0794906691f,0.079669185f,0.0798477009f,0.0800262168f,0.0802047327f,0.0803832486f,0.0805617645f,0.0807402804f,0.0809187964f,0.0810973123f,0.0812758282f,0.0815772042f,0.0818785802f,0.0821799487f,0.0824813247f,0.0827827007f,0.0830840692f,0.0833854452f,0.0836868212f,0.0839881897f,0.0842895657f,0.0849189758f,0.0855483934f,0.0861778036f,0.0868072212f,0.0874366313f,0.0880660489f,0.0886954665f,0.0893248767f,0.0899542943f,0.0905837044f,0.0918155089f,0.0930473134f,0.0942791179f,0.0955109224f,0.0967427194f,0.0979745239f,0.0992063284f,0.100438133f,0.101669937f,0.102901742f,0.1045167f,0.106131658f,0.107746616f,0.109361582f,0.11097654f,0.112591498f,0.114206456f,0.115821414f,0.117436372f,0.11905133f,0.120572656f,0.122093983f,0.12361531f,0.125136629f,0.126657948f,0.128179282f,0.129700601f,0.13122192f,0.132743254f,0.134264573f,0.135157913f,0.136051252f,0.136944592f,0.137837932f,0.138731256f,0.139624596f,0.140517935f,0.141411275f,0.142304614f,0.143197954f,0.143566102f,0.14393425f,0.144302398f,0.144670546f,0.145038694f,0.145406842f,0.14577499f,0.146143124f,0.146511272f,0.14687942f,0.147268981f,0.147658542f,0.148048103f,0.148437649f,0.14882721f,0.149216771f,0.149606332f,0.149995878f,0.150385439f,0.150775f,0.151507095f,0.152239189f,0.152971283f,0.153703377f,0.154435456f,0.15516755f,0.155899644f,0.156631738f,0.157363832f,0.158095926f,0.159105435f,0.160114944f,0.161124453f,0.162133962f,0.163143471f,0.16415298f,0.165162489f,0.166171998f,0.167181507f,0.168191016f,0.169262335f,0.170333669f,0.171404988f,0.172476321f,0.17354764f,0.174618974f,0.175690293f,0.176761612f,0.177832946f,0.178904265f,0.179768965f,0.180633679f,0.181498379f,0.182363093f,0.183227792f,0.184092492f,0.184957206f,0.185821906f,0.186686605f,0.18755132f,0.187759787f,0.187968254f,0.188176706f,0.188385174f,0.188593641f,0.188802108f,0.189010575f,0.189219043f,0.189427495f,0.189635962f,0.18924962f,0.188863277f,0.188476935f,0.188090578f,0.187704235f,0.187317893f,0.186931551f,0.186545193f,0.186158851f,0.185772508f,0.185344592f,0.184916675f,0.184488758f,0.184060842f,0.18363294f,0.183205023f,0.182777107f,0.18234919f,0.181921273f,0.181493357f,0.181504533f,0.181515694f,0.181526855f,0.181538031f,0.181549191f,0.181560367f,0.181571528f,0.181582704f,0.181593865f,0.181605026f,0.182165638f,0.182726249f,0.183286846f,0.183847457f,0.184408069f,0.18496868f,0.185529277f,0.186089888f,0.1866505f,0.187211096f,0.188095346f,0.188979581f,0.189863831f,0.190748066f,0.191632301f,0.19251655f,0.193400785f,0.194285035f,0.19516927f,0.19605352f,0.197397441f,0.198741347f,0.200085267f,0.201429188f,0.202773109f,0.20411703f,0.205460951f,0.206804857f,0.208148777f,0.209492698f,0.188543424f,0.167594165f,0.14664489f,0.125695616f,0.104746349f,0.0837970823f,0.062847808f,0.0418985412f,0.0209492706f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth02[400] = {0.117132939f,0.119765066f,0.122397192f,0.125029325f,0.127661452f,0.130293578f,0.132925704f,0.13555783f,0.138189942f,0.140822068f,0.143454194f,0.146561682f,0.14966917f,0.152776659f,0.155884147f,0.158991635f,0.162099108f,0.165206596f,0.168314084f,0.171421573f,0.174529061f,0.176169634f,0.177810207f,0.17945078f,0.181091353f,0.182731926f,0.184372514f,0.186013088f,0.187653661f,0.189294234f,0.190934807f,0.191401541f,0.191868275f,0.19233501f,0.192801729f,0.193268463f,0.193735197f,0.194201931f,0.194668666f,0.1951354f,0.195602119f,0.195941716f,0.196281299f,0.196620882f,0.196960464f,0.197300047f,0.197639629f,0.197979212f,0.198318794f,0.198658377f,0.198997974f,0.199521661f,0.200045362f,0.200569063f,0.20109275f,0.201616451f,0.202140152f,0.202663839f,0.20318754f,0.203711241f,0.204234928f,0.205129936f,0.20602493f,0.206919923f,0.207814917f,0.208709911f,0.209604919f,0.210499913f,0.211394906f,0.2122899f,0.213184893f,0.214708745f,0.216232583f,0.21775642f,0.219280273f,0.22080411f,0.222327948f,0.223851785f,0.225375637f,0.226899475f,0.228423312f,0.230708316f,0.232993305f,0.235278308f,0.237563297f,0.239848286f,0.24213329f,0.244418278f,0.246703282f,0.248988271f,0.251273274f,0.254150629f,0.257027984f,0.259905338f,0.262782693f,0.265660048f,0.268537402f,0.271414787f,0.274292141f,0.277169496f,0.28004685f,0.282920271f,0.285793692f,0.288667113f,0.291540533f,0.294413984f,0.297287405f,0.300160825f,0.303034246f,0.305907667f,0.308781087f,0.310848147f,0.312915206f,0.314982235f,0.317049295f,0.319116354f,0.321183383f,0.323250443f,0.325317502f,0.327384531f,0.329451591f,0.329842865f,0.33023417f,0.330625445f,0.331016749f,0.331408024f,0.331799299f,0.332190603f,0.332581878f,0.332973152f,0.333364457f,0.331487656f,0.329610884f,0.327734083f,0.325857311f,0.32398051f,0.322103739f,0.320226967f,0.318350166f,0.316473395f,0.314596593f,0.311764836f,0.308933079f,0.306101322f,0.303269565f,0.300437808f,0.297606051f,0.294774294f,0.291942507f,0.28911075f,0.286278993f,0.284999996f,0.283721f,0.282442003f,0.281163007f,0.279883981f,0.278604984f,0.277325988f,0.276046991f,0.274767995f,0.273488969f,0.27378577f,0.274082541f,0.274379313f,0.274676085f,0.274972856f,0.275269657f,0.275566429f,0.2758632f,0.276159972f,0.276456743f,0.276531368f,0.276605994f,0.276680619f,0.276755214f,0.276829839f,0.276904464f,0.276979089f,0.277053684f,0.277128309f,0.277202934f,0.278412372f,0.27962184f,0.280831277f,0.282040745f,0.283250183f,0.284459651f,0.285669088f,0.286878556f,0.288087994f,0.289297462f,0.294305354f,0.299313217f,0.30432111f,0.309329003f,0.314336866f,0.319344759f,0.324352652f,0.329360545f,0.334368408f,0.339376301f,0.34746027f,0.355544239f,0.363628238f,0.371712208f,0.379796177f,0.387880147f,0.395964146f,0.404048115f,0.412132084f,0.420216054f,0.426973403f,0.433730751f,0.4404881f,0.447245419f,0.454002768f,0.460760117f,0.467517436f,0.474274784f,0.481032133f,0.487789482f,0.491521329f,0.495253205f,0.498985082f,0.502716959f,0.506448805f,0.510180712f,0.513912559f,0.517644465f,0.521376312f,0.525108218f,0.527171075f,0.529233992f,0.531296909f,0.533359826f,0.535422742f,0.537485659f,0.539548516f,0.541611433f,0.54367435f,0.545737267f,0.547319531f,0.548901737f,0.550484002f,0.552066267f,0.553648531f,0.555230737f,0.556813002f,0.558395267f,0.559977531f,0.561559737f,0.56319207f,0.564824402f,0.566456735f,0.568089068f,0.569721401f,0.571353734f,0.572986066f,0.574618399f,0.576250732f,0.577883065f,0.57959187f,0.581300735f,0.583009541f,0.584718347f,0.586427152f,0.588135958f,0.589844763f,0.591553569f,0.593262374f,0.59497118f,0.596653819f,0.598336399f,0.600019038f,0.601701617f,0.603384256f,0.605066836f,0.606749415f,0.608432055f,0.610114634f,0.611797273f,0.613092244f,0.614387214f,0.615682185f,0.616977155f,0.618272126f,0.619567096f,0.620862067f,0.622157037f,0.623452008f,0.624746978f,0.62608242f,0.627417862f,0.628753304f,0.630088747f,0.631424189f,0.632759631f,0.634095073f,0.635430515f,0.636765957f,0.638101399f,0.639887094f,0.64167273f,0.643458426f,0.645244122f,0.647029817f,0.648815513f,0.650601149f,0.652386844f,0.65417254f,0.655958235f,0.658183932f,0.660409689f,0.662635446f,0.664861202f,0.667086959f,0.669312656f,0.671538413f,0.673764169f,0.675989926f,0.678215623f,0.680352211f,0.682488739f,0.684625268f,0.686761796f,0.688898325f,0.691034853f,0.693171382f,0.69530791f,0.697444439f,0.699580967f,0.701331735f,0.703082561f,0.704833329f,0.706584096f,0.708334863f,0.71008563f,0.711836398f,0.713587165f,0.715337932f,0.717088699f,0.718762279f,0.720435858f,0.722109377f,0.723782957f,0.725456476f,0.727130055f,0.728803575f,0.730477154f,0.732150733f,0.733824253f,0.660441816f,0.587059438f,0.513677001f,0.440294564f,0.366912127f,0.293529719f,0.220147282f,0.14676486f,0.0733824298f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth03[400] = {0.130362526f,0.135033682f,0.139704823f,0.14437598f,0.149047136f,0.153718293f,0.158389434f,0.163060591f,0.167731747f,0.172402903f,0.177074045f,0.184467629f,0.191861227f,0.199254811f,0.206648394f,0.214041978f,0.221435562f,0.228829145f,0.236222744f,0.243616328f,0.251009911f,0.256533414f,0.262056947f,0.26758045f,0.273103982f,0.278627485f,0.284151018f,0.28967452f,0.295198053f,0.300721556f,0.306245089f,0.308012128f,0.309779167f,0.311546206f,0.313313246f,0.315080285f,0.316847324f,0.318614364f,0.320381403f,0.322148472f,0.323915511f,0.324517101f,0.325118721f,0.32572031f,0.32632193f,0.326923519f,0.327525139f,0.328126729f,0.328728348f,0.329329938f,0.329931557f,0.330221295f,0.330511063f,0.330800831f,0.331090569f,0.331380337f,0.331670076f,0.331959844f,0.332249612f,0.33253935f,0.332829118f,0.332643688f,0.332458287f,0.332272857f,0.332087427f,0.331902027f,0.331716597f,0.331531197f,0.331345767f,0.331160337f,0.330974936f,0.330219835f,0.329464734f,0.328709632f,0.327954531f,0.327199429f,0.326444328f,0.325689226f,0.324934155f,0.324179053f,0.323423952f,0.322215468f,0.321006954f,0.31979847f,0.318589985f,0.317381501f,0.316173017f,0.314964533f,0.313756019f,0.312547535f,0.311339051f,0.310027748f,0.308716446f,0.307405144f,0.306093812f,0.30478251f,0.303471208f,0.302159905f,0.300848603f,0.299537301f,0.298225969f,0.296936452f,0.295646906f,0.294357359f,0.293067843f,0.291778296f,0.29048875f,0.289199203f,0.287909687f,0.28662014f,0.285330594f,0.283740312f,0.28215f,0.280559689f,0.278969377f,0.277379096f,0.275788784f,0.274198472f,0.272608191f,0.271017879f,0.269427568f,0.267522246f,0.265616924f,0.263711601f,0.261806279f,0.259900957f,0.257995635f,0.256090313f,0.254184961f,0.252279639f,0.250374317f,0.248481169f,0.246588022f,0.244694874f,0.242801726f,0.240908578f,0.239015415f,0.237122267f,0.23522912f,0.233335972f,0.231442824f,0.229724124f,0.228005439f,0.226286739f,0.224568054f,0.222849354f,0.221130669f,0.219411969f,0.217693284f,0.215974584f,0.214255899f,0.212772548f,0.211289197f,0.209805846f,0.208322495f,0.206839144f,0.205355793f,0.203872442f,0.202389091f,0.20090574f,0.199422389f,0.197931319f,0.196440235f,0.194949165f,0.193458095f,0.19196701f,0.190475941f,0.188984871f,0.187493786f,0.186002716f,0.184511647f,0.182998911f,0.181486174f,0.179973438f,0.178460702f,0.176947966f,0.17543523f,0.173922509f,0.172409773f,0.170897037f,0.169384301f,0.168174669f,0.166965023f,0.165755391f,0.164545745f,0.163336113f,0.162126482f,0.160916835f,0.159707204f,0.158497557f,0.157287925f,0.156469941f,0.155651942f,0.154833958f,0.154015973f,0.153197974f,0.15237999f,0.151562005f,0.150744006f,0.149926022f,0.149108037f,0.148679554f,0.148251086f,0.147822618f,0.147394136f,0.146965668f,0.1465372f,0.146108717f,0.145680249f,0.145251766f,0.144823298f,0.144526795f,0.144230291f,0.143933773f,0.14363727f,0.143340766f,0.143044263f,0.14274776f,0.142451242f,0.142154738f,0.141858235f,0.141729489f,0.141600728f,0.141471982f,0.141343236f,0.14121449f,0.141085729f,0.140956983f,0.140828237f,0.140699476f,0.14057073f,0.140581131f,0.140591517f,0.140601903f,0.140612304f,0.14062269f,0.140633076f,0.140643477f,0.140653864f,0.140664265f,0.140674651f,0.140716508f,0.140758365f,0.140800238f,0.140842095f,0.140883952f,0.14092581f,0.140967682f,0.141009539f,0.141051397f,0.141093254f,0.141240746f,0.141388237f,0.141535729f,0.141683221f,0.141830713f,0.141978204f,0.142125681f,0.142273173f,0.142420664f,0.142568156f,0.142965302f,0.143362448f,0.143759593f,0.144156739f,0.14455387f,0.144951016f,0.145348161f,0.145745307f,0.146142453f,0.146539599f,0.147069395f,0.14759919f,0.148129001f,0.148658797f,0.149188593f,0.149718404f,0.1502482f,0.15077801f,0.151307806f,0.151837602f,0.152005315f,0.152173042f,0.152340755f,0.152508467f,0.15267618f,0.152843893f,0.153011605f,0.153179318f,0.15334703f,0.153514743f,0.15317221f,0.152829662f,0.152487129f,0.152144581f,0.151802048f,0.1514595f,0.151116967f,0.150774434f,0.150431886f,0.150089353f,0.149475664f,0.148861974f,0.1482483f,0.147634611f,0.147020921f,0.146407232f,0.145793542f,0.145179868f,0.144566178f,0.143952489f,0.143196717f,0.14244093f,0.141685158f,0.140929371f,0.140173599f,0.139417812f,0.13866204f,0.137906253f,0.137150481f,0.136394694f,0.135990381f,0.135586053f,0.135181725f,0.134777397f,0.134373069f,0.133968741f,0.133564427f,0.133160099f,0.132755771f,0.132351443f,0.13261205f,0.132872641f,0.133133247f,0.133393839f,0.133654445f,0.133915037f,0.134175643f,0.134436235f,0.134696841f,0.134957448f,0.136135057f,0.137312666f,0.138490275f,0.139667884f,0.140845492f,0.142023101f,0.14320071f,0.144378319f,0.145555928f,0.146733537f,0.132060185f,0.117386833f,0.102713481f,0.0880401284f,0.0733667687f,0.0586934164f,0.0440200642f,0.0293467082f,0.0146733541f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth04[400] = {0.0512392893f,0.0515387617f,0.0518382341f,0.0521377064f,0.0524371788f,0.0527366512f,0.0530361235f,0.0533355922f,0.0536350645f,0.0539345369f,0.0542340092f,0.0544096343f,0.0545852594f,0.0547608882f,0.0549365133f,0.0551121384f,0.0552877635f,0.0554633886f,0.0556390136f,0.0558146387f,0.0559902638f,0.0560951233f,0.0561999865f,0.056304846f,0.0564097054f,0.0565145649f,0.0566194244f,0.0567242838f,0.0568291433f,0.0569340065f,0.057038866f,0.0571211986f,0.057203535f,0.0572858714f,0.0573682077f,0.0574505404f,0.0575328767f,0.0576152131f,0.0576975495f,0.0577798821f,0.0578622185f,0.0579710416f,0.0580798611f,0.0581886806f,0.0582975037f,0.0584063232f,0.0585151464f,0.0586239658f,0.058732789f,0.0588416085f,0.0589504316f,0.0590853952f,0.0592203625f,0.059355326f,0.0594902933f,0.0596252568f,0.0597602241f,0.0598951876f,0.0600301549f,0.0601651184f,0.0603000857f,0.0604014806f,0.0605028793f,0.0606042743f,0.0607056692f,0.0608070679f,0.0609084629f,0.0610098615f,0.0611112565f,0.0612126552f,0.0613140501f,0.0614103004f,0.0615065508f,0.0616028011f,0.0616990514f,0.0617953017f,0.0618915483f,0.0619877987f,0.062084049f,0.0621802993f,0.0622765496f,0.0623734035f,0.0624702536f,0.0625671074f,0.0626639575f,0.0627608076f,0.0628576651f,0.0629545152f,0.0630513653f,0.0631482154f,0.063245073f,0.0633989051f,0.0635527447f,0.0637065768f,0.0638604164f,0.064014256f,0.0641680881f,0.0643219277f,0.0644757599f,0.0646295995f,0.0647834316f,0.0650428459f,0.0653022602f,0.0655616745f,0.0658210889f,0.0660804957f,0.06633991f,0.0665993243f,0.0668587387f,0.067118153f,0.0673775598f,0.0681710839f,0.068964608f,0.0697581321f,0.0705516562f,0.0713451803f,0.0721387044f,0.0729322284f,0.0737257525f,0.0745192766f,0.0753128007f,0.0779013708f,0.0804899409f,0.0830785185f,0.0856670886f,0.0882556587f,0.0908442289f,0.093432799f,0.0960213691f,0.0986099392f,0.101198509f,0.105614729f,0.110030957f,0.114447176f,0.118863404f,0.123279624f,0.127695844f,0.132112071f,0.136528298f,0.140944511f,0.145360738f,0.148651093f,0.151941434f,0.155231789f,0.158522129f,0.161812484f,0.165102825f,0.16839318f,0.17168352f,0.174973875f,0.178264216f,0.178832203f,0.179400191f,0.179968178f,0.180536166f,0.181104153f,0.181672141f,0.182240129f,0.182808116f,0.183376104f,0.183944091f,0.182560787f,0.181177482f,0.179794177f,0.178410873f,0.177027568f,0.175644279f,0.174260974f,0.172877669f,0.171494365f,0.17011106f,0.16803804f,0.165965021f,0.163892016f,0.161818996f,0.159745976f,0.157672957f,0.155599952f,0.153526932f,0.151453912f,0.149380907f,0.147717223f,0.146053553f,0.144389868f,0.142726198f,0.141062513f,0.139398843f,0.137735158f,0.136071488f,0.134407803f,0.132744133f,0.131655827f,0.130567521f,0.129479215f,0.128390908f,0.127302602f,0.126214281f,0.125125974f,0.124037676f,0.122949369f,0.121861055f,0.121192262f,0.120523468f,0.119854674f,0.11918588f,0.118517086f,0.117848285f,0.117179491f,0.116510697f,0.115841903f,0.115173109f,0.114603937f,0.114034757f,0.113465585f,0.112896413f,0.11232724f,0.111758061f,0.111188889f,0.110619716f,0.110050544f,0.109481364f,0.109069131f,0.108656891f,0.108244658f,0.107832417f,0.107420176f,0.107007943f,0.106595702f,0.106183469f,0.105771229f,0.105358995f,0.10525731f,0.105155624f,0.105053939f,0.104952253f,0.104850568f,0.104748882f,0.104647197f,0.104545519f,0.104443833f,0.104342148f,0.10450685f,0.10467156f,0.104836263f,0.105000973f,0.105165675f,0.105330385f,0.105495088f,0.105659798f,0.1058245f,0.10598921f,0.106280923f,0.106572635f,0.106864348f,0.107156068f,0.107447781f,0.107739493f,0.108031206f,0.108322918f,0.108614638f,0.108906351f,0.109205157f,0.109503955f,0.10980276f,0.110101566f,0.110400364f,0.110699169f,0.110997975f,0.111296773f,0.111595578f,0.111894384f,0.112111166f,0.112327948f,0.112544738f,0.11276152f,0.112978302f,0.113195091f,0.113411874f,0.113628656f,0.113845438f,0.114062227f,0.114051305f,0.114040382f,0.11402946f,0.114018545f,0.114007622f,0.113996699f,0.113985777f,0.113974854f,0.113963939f,0.113953017f,0.113797516f,0.113642022f,0.113486521f,0.11333102f,0.113175526f,0.113020025f,0.112864532f,0.112709031f,0.112553529f,0.112398036f,0.112373546f,0.112349063f,0.112324581f,0.11230009f,0.112275608f,0.112251125f,0.112226635f,0.112202153f,0.11217767f,0.11215318f,0.112419762f,0.112686343f,0.112952925f,0.113219507f,0.113486089f,0.113752671f,0.114019252f,0.114285834f,0.114552416f,0.114818998f,0.115313642f,0.115808286f,0.11630293f,0.116797566f,0.11729221f,0.117786855f,0.118281499f,0.118776143f,0.119270787f,0.119765423f,0.120248355f,0.120731294f,0.121214226f,0.121697158f,0.122180089f,0.122663029f,0.12314596f,0.123628892f,0.124111824f,0.124594755f,0.125165731f,0.125736713f,0.126307696f,0.126878679f,0.127449647f,0.128020629f,0.128591612f,0.129162595f,0.129733577f,0.130304545f,0.117274098f,0.104243644f,0.0912131816f,0.0781827271f,0.0651522726f,0.0521218218f,0.0390913635f,0.0260609109f,0.0130304554f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth05[400] = {0.144234672f,0.149638116f,0.155041561f,0.16044502f,0.165848464f,0.171251908f,0.176655352f,0.182058796f,0.18746224f,0.192865685f,0.198269129f,0.207885608f,0.217502087f,0.227118552f,0.236735031f,0.24635151f,0.255967975f,0.265584439f,0.275200933f,0.284817398f,0.294433862f,0.302534252f,0.310634613f,0.318734974f,0.326835334f,0.334935695f,0.343036056f,0.351136416f,0.359236807f,0.367337167f,0.375437528f,0.378731132f,0.382024705f,0.385318309f,0.388611913f,0.391905516f,0.39519909f,0.398492694f,0.401786298f,0.405079901f,0.408373475f,0.409631073f,0.410888672f,0.41214627f,0.413403869f,0.414661497f,0.415919095f,0.417176694f,0.418434292f,0.41969189f,0.420949489f,0.421472758f,0.421996027f,0.422519296f,0.423042566f,0.423565865f,0.424089134f,0.424612403f,0.425135672f,0.425658941f,0.42618221f,0.426172644f,0.426163107f,0.426153541f,0.426143974f,0.426134408f,0.426124871f,0.426115304f,0.426105738f,0.426096171f,0.426086605f,0.425410271f,0.424733907f,0.424057543f,0.42338118f,0.422704816f,0.422028452f,0.421352088f,0.420675755f,0.419999391f,0.419323027f,0.417734236f,0.416145414f,0.414556623f,0.412967801f,0.411379009f,0.409790218f,0.408201396f,0.406612605f,0.405023783f,0.403434992f,0.401018858f,0.398602724f,0.39618659f,0.393770486f,0.391354352f,0.388938218f,0.386522084f,0.384105951f,0.381689817f,0.379273683f,0.375982225f,0.372690767f,0.369399279f,0.366107821f,0.362816364f,0.359524906f,0.356233418f,0.35294196f,0.349650502f,0.346359044f,0.342835307f,0.33931157f,0.335787833f,0.332264066f,0.328740329f,0.325216591f,0.321692854f,0.318169117f,0.31464538f,0.311121643f,0.308133006f,0.30514434f,0.302155703f,0.299167037f,0.296178401f,0.293189734f,0.290201098f,0.287212431f,0.284223765f,0.281235129f,0.278499216f,0.275763303f,0.27302739f,0.270291477f,0.267555565f,0.264819652f,0.262083739f,0.259347826f,0.256611913f,0.25387603f,0.251377404f,0.248878777f,0.246380165f,0.243881539f,0.241382927f,0.2388843f,0.236385688f,0.233887061f,0.23138845f,0.228889823f,0.227421314f,0.225952789f,0.224484265f,0.223015755f,0.221547231f,0.220078722f,0.218610197f,0.217141673f,0.215673164f,0.214204639f,0.213619649f,0.213034675f,0.212449685f,0.211864695f,0.211279705f,0.210694715f,0.21010974f,0.209524751f,0.208939761f,0.208354771f,0.207681537f,0.207008287f,0.206335038f,0.205661803f,0.204988554f,0.204315305f,0.20364207f,0.202968821f,0.202295572f,0.201622337f,0.200899735f,0.200177133f,0.199454516f,0.198731914f,0.198009312f,0.19728671f,0.196564108f,0.195841506f,0.195118904f,0.194396302f,0.194213331f,0.194030374f,0.193847418f,0.193664446f,0.19348149f,0.193298519f,0.193115562f,0.192932606f,0.192749634f,0.192566678f,0.193328157f,0.194089636f,0.194851115f,0.195612609f,0.196374089f,0.197135568f,0.197897047f,0.198658526f,0.199420005f,0.200181499f,0.201604337f,0.203027174f,0.204450011f,0.205872849f,0.207295686f,0.208718523f,0.210141361f,0.211564198f,0.21298705f,0.214409888f,0.215920687f,0.217431501f,0.218942299f,0.220453113f,0.221963912f,0.223474711f,0.224985525f,0.226496324f,0.228007138f,0.229517937f,0.230623811f,0.231729671f,0.232835546f,0.233941406f,0.235047281f,0.236153141f,0.237259015f,0.238364875f,0.239470735f,0.24057661f,0.241915047f,0.243253484f,0.244591922f,0.245930359f,0.247268781f,0.248607218f,0.249945655f,0.251284093f,0.252622545f,0.253960967f,0.256415993f,0.258871019f,0.261326045f,0.263781071f,0.266236097f,0.268691123f,0.271146148f,0.273601174f,0.2760562f,0.278511256f,0.281982213f,0.2854532f,0.288924158f,0.292395145f,0.295866102f,0.299337089f,0.302808046f,0.306279033f,0.309749991f,0.313220978f,0.316678017f,0.320135087f,0.323592156f,0.327049196f,0.330506265f,0.333963335f,0.337420374f,0.340877444f,0.344334513f,0.347791553f,0.349599481f,0.351407379f,0.353215307f,0.355023235f,0.356831133f,0.358639061f,0.36044699f,0.362254888f,0.364062816f,0.365870714f,0.365862787f,0.36585483f,0.365846902f,0.365838945f,0.365830988f,0.36582306f,0.365815103f,0.365807176f,0.365799218f,0.365791261f,0.365154564f,0.364517838f,0.363881141f,0.363244414f,0.362607688f,0.361970991f,0.361334264f,0.360697567f,0.360060841f,0.359424114f,0.359281033f,0.359137952f,0.358994871f,0.358851761f,0.35870868f,0.358565599f,0.358422518f,0.358279437f,0.358136326f,0.357993245f,0.358686596f,0.359379977f,0.360073328f,0.360766679f,0.36146006f,0.362153411f,0.362846762f,0.363540143f,0.364233494f,0.364926845f,0.366156757f,0.367386669f,0.368616581f,0.369846493f,0.371076405f,0.372306287f,0.373536199f,0.374766111f,0.375996023f,0.377225935f,0.379285961f,0.381345987f,0.383406043f,0.385466069f,0.387526095f,0.389586121f,0.391646177f,0.393706203f,0.395766228f,0.397826254f,0.358043641f,0.318261027f,0.278478384f,0.238695756f,0.198913127f,0.159130514f,0.119347878f,0.0795652494f,0.0397826284f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth06[400] = {0.136268958f,0.140587866f,0.144906789f,0.149225697f,0.15354462f,0.157863542f,0.16218245f,0.166501373f,0.170820281f,0.175139204f,0.179458126f,0.186201513f,0.192944914f,0.1996883f,0.206431702f,0.213175088f,0.219918489f,0.226661891f,0.233405277f,0.240148678f,0.246892065f,0.251884758f,0.256877452f,0.261870146f,0.266862839f,0.271855533f,0.276848227f,0.28184092f,0.286833614f,0.291826308f,0.296819001f,0.299165249f,0.301511496f,0.303857744f,0.306203991f,0.308550239f,0.310896486f,0.313242733f,0.315589011f,0.317935258f,0.320281506f,0.32196179f,0.323642075f,0.32532239f,0.327002674f,0.328682989f,0.330363274f,0.332043558f,0.333723873f,0.335404158f,0.337084442f,0.338925838f,0.340767205f,0.342608571f,0.344449967f,0.346291333f,0.3481327f,0.349974096f,0.351815462f,0.353656828f,0.355498224f,0.358067006f,0.360635817f,0.363204628f,0.365773439f,0.368342221f,0.370911032f,0.373479843f,0.376048625f,0.378617436f,0.381186247f,0.384980261f,0.388774246f,0.39256826f,0.396362275f,0.40015626f,0.403950274f,0.407744288f,0.411538273f,0.415332288f,0.419126302f,0.423809558f,0.428492814f,0.43317607f,0.437859327f,0.442542613f,0.447225869f,0.451909125f,0.456592381f,0.461275637f,0.465958923f,0.470411032f,0.474863112f,0.479315221f,0.483767331f,0.48821944f,0.492671549f,0.497123659f,0.501575768f,0.506027877f,0.510479987f,0.514012635f,0.517545283f,0.521077931f,0.524610639f,0.528143287f,0.531675935f,0.535208583f,0.538741231f,0.542273939f,0.545806587f,0.547945142f,0.550083756f,0.552222311f,0.554360926f,0.556499481f,0.558638096f,0.560776651f,0.562915266f,0.565053821f,0.567192435f,0.567899644f,0.568606913f,0.569314122f,0.570021331f,0.57072854f,0.571435809f,0.572143018f,0.572850227f,0.573557496f,0.574264705f,0.573746562f,0.573228478f,0.572710335f,0.572192192f,0.571674049f,0.571155965f,0.570637822f,0.570119679f,0.569601536f,0.569083452f,0.567243457f,0.565403521f,0.563563585f,0.56172365f,0.559883654f,0.558043718f,0.556203783f,0.554363787f,0.552523851f,0.550683916f,0.547966063f,0.54524821f,0.542530417f,0.539812565f,0.537094712f,0.53437686f,0.531659067f,0.528941214f,0.526223361f,0.523505509f,0.519998312f,0.516491115f,0.512983918f,0.509476721f,0.505969524f,0.502462327f,0.498955131f,0.495447934f,0.491940737f,0.48843354f,0.484111279f,0.479789048f,0.475466788f,0.471144557f,0.466822296f,0.462500066f,0.458177835f,0.453855574f,0.449533343f,0.445211083f,0.440677255f,0.436143428f,0.431609601f,0.427075773f,0.422541946f,0.418008119f,0.413474292f,0.408940464f,0.404406637f,0.39987281f,0.394928724f,0.389984667f,0.385040581f,0.380096525f,0.375152439f,0.370208383f,0.365264297f,0.36032024f,0.355376154f,0.350432098f,0.345327735f,0.340223372f,0.335119009f,0.330014646f,0.324910283f,0.31980592f,0.314701587f,0.309597224f,0.304492861f,0.299388498f,0.294693053f,0.289997607f,0.285302162f,0.280606747f,0.275911301f,0.271215856f,0.266520411f,0.261824965f,0.25712952f,0.252434075f,0.249286875f,0.24613966f,0.242992461f,0.239845246f,0.236698031f,0.233550832f,0.230403617f,0.227256402f,0.224109188f,0.220961988f,0.2192972f,0.217632398f,0.21596761f,0.214302823f,0.212638035f,0.210973248f,0.20930846f,0.207643673f,0.205978885f,0.204314098f,0.203461945f,0.202609777f,0.201757625f,0.200905472f,0.200053319f,0.199201167f,0.198348999f,0.197496846f,0.196644694f,0.195792541f,0.195300996f,0.194809437f,0.194317892f,0.193826348f,0.193334803f,0.192843258f,0.192351714f,0.191860169f,0.19136861f,0.190877065f,0.190612271f,0.190347478f,0.190082684f,0.189817891f,0.189553097f,0.189288303f,0.189023495f,0.188758701f,0.188493907f,0.188229114f,0.188478172f,0.188727215f,0.188976273f,0.189225331f,0.189474374f,0.189723432f,0.189972475f,0.190221533f,0.190470591f,0.190719634f,0.191589892f,0.192460135f,0.193330392f,0.194200635f,0.195070878f,0.195941135f,0.196811378f,0.197681621f,0.198551878f,0.199422121f,0.200638503f,0.20185487f,0.203071252f,0.204287633f,0.205504f,0.206720382f,0.207936764f,0.209153131f,0.210369512f,0.211585879f,0.212737441f,0.213889003f,0.215040565f,0.216192126f,0.217343673f,0.218495235f,0.219646797f,0.220798358f,0.22194992f,0.223101467f,0.223955274f,0.224809065f,0.225662857f,0.226516649f,0.227370441f,0.228224233f,0.229078025f,0.229931831f,0.230785623f,0.231639415f,0.231807172f,0.231974944f,0.232142702f,0.232310474f,0.232478231f,0.232646003f,0.232813761f,0.232981518f,0.23314929f,0.233317047f,0.232926622f,0.232536197f,0.232145771f,0.231755346f,0.231364921f,0.230974495f,0.230584055f,0.23019363f,0.229803205f,0.229412779f,0.229406834f,0.229400873f,0.229394928f,0.229388982f,0.229383036f,0.229377091f,0.22937113f,0.229365185f,0.229359239f,0.229353294f,0.206417963f,0.183482632f,0.160547301f,0.13761197f,0.114676647f,0.091741316f,0.0688059852f,0.045870658f,0.022935329f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth11[400] = {0.0538079925f,0.0537960492f,0.0537841022f,0.0537721552f,0.0537602119f,0.0537482649f,0.0537363179f,0.0537243746f,0.0537124276f,0.0537004806f,0.0536885373f,0.0536455065f,0.0536024794f,0.0535594523f,0.0535164215f,0.0534733944f,0.0534303635f,0.0533873364f,0.0533443056f,0.0533012785f,0.0532582514f,0.0533021428f,0.0533460341f,0.0533899255f,0.0534338169f,0.0534777083f,0.0535215996f,0.0535654947f,0.0536093861f,0.0536532775f,0.0536971688f,0.0537294075f,0.0537616424f,0.0537938811f,0.0538261198f,0.0538583584f,0.0538905971f,0.0539228357f,0.0539550707f,0.0539873093f,0.054019548f,0.0540694334f,0.0541193187f,0.0541692041f,0.0542190894f,0.0542689748f,0.0543188564f,0.0543687418f,0.0544186272f,0.0544685125f,0.0545183979f,0.0545612425f,0.0546040908f,0.0546469353f,0.0546897836f,0.0547326282f,0.0547754727f,0.0548183173f,0.0548611656f,0.0549040101f,0.0549468584f,0.0549678914f,0.0549889244f,0.0550099611f,0.0550309941f,0.0550520308f,0.0550730638f,0.0550941005f,0.0551151335f,0.0551361702f,0.0551572032f,0.0552090928f,0.0552609786f,0.0553128682f,0.0553647578f,0.0554166436f,0.0554685332f,0.0555204228f,0.0555723086f,0.0556241982f,0.055676084f,0.0557723008f,0.0558685139f,0.0559647307f,0.0560609475f,0.0561571606f,0.0562533773f,0.0563495904f,0.0564458072f,0.0565420203f,0.0566382371f,0.0568141527f,0.0569900721f,0.0571659878f,0.0573419034f,0.0575178228f,0.0576937385f,0.0578696541f,0.0580455735f,0.0582214892f,0.0583974086f,0.0586792678f,0.0589611232f,0.0592429824f,0.0595248416f,0.0598067045f,0.0600885637f,0.0603704192f,0.0606522784f,0.0609341376f,0.0612159967f,0.0619161576f,0.0626163185f,0.0633164793f,0.0640166327f,0.0647167936f,0.0654169545f,0.0661171153f,0.0668172762f,0.067517437f,0.0682175905f,0.0703377724f,0.0724579543f,0.0745781362f,0.0766983107f,0.0788184926f,0.0809386745f,0.0830588564f,0.0851790309f,0.0872992128f,0.0894193947f,0.0929389f,0.0964584127f,0.099977918f,0.103497431f,0.107016936f,0.110536449f,0.114055961f,0.117575467f,0.121094979f,0.124614485f,0.127503335f,0.130392194f,0.133281052f,0.13616991f,0.139058754f,0.141947612f,0.14483647f,0.147725329f,0.150614172f,0.153503031f,0.155532077f,0.157561123f,0.15959017f,0.161619201f,0.163648248f,0.165677294f,0.167706341f,0.169735387f,0.171764418f,0.173793465f,0.176358402f,0.178923354f,0.18148829f,0.184053227f,0.186618164f,0.189183101f,0.191748053f,0.19431299f,0.196877927f,0.199442863f,0.204325616f,0.209208354f,0.214091107f,0.21897386f,0.223856598f,0.228739351f,0.233622089f,0.238504842f,0.24338758f,0.248270333f,0.256985635f,0.265700936f,0.274416238f,0.28313154f,0.291846842f,0.300562143f,0.309277445f,0.317992747f,0.326708049f,0.33542335f,0.346280366f,0.357137412f,0.367994457f,0.378851503f,0.389708519f,0.400565565f,0.41142261f,0.422279656f,0.433136702f,0.443993717f,0.453441679f,0.462889642f,0.472337574f,0.481785536f,0.491233498f,0.50068146f,0.510129392f,0.519577324f,0.529025316f,0.538473248f,0.543293238f,0.548113286f,0.552933276f,0.557753325f,0.562573314f,0.567393303f,0.572213352f,0.577033341f,0.58185339f,0.586673379f,0.587489963f,0.588306487f,0.58912307f,0.589939654f,0.590756178f,0.591572762f,0.592389286f,0.593205869f,0.594022453f,0.594838977f,0.594413996f,0.593989015f,0.593564034f,0.593139052f,0.592714071f,0.59228909f,0.591864109f,0.591439128f,0.591014147f,0.590589106f,0.59019196f,0.589794755f,0.58939755f,0.589000344f,0.588603139f,0.588205934f,0.587808728f,0.587411582f,0.587014377f,0.586617172f,0.586372852f,0.586128592f,0.585884333f,0.585640013f,0.585395753f,0.585151434f,0.584907174f,0.584662914f,0.584418595f,0.584174335f,0.584142685f,0.584111035f,0.584079444f,0.584047794f,0.584016144f,0.583984554f,0.583952904f,0.583921254f,0.583889604f,0.583858013f,0.584446907f,0.585035861f,0.585624754f,0.586213708f,0.586802602f,0.587391555f,0.587980449f,0.588569403f,0.589158297f,0.58974725f,0.591023684f,0.592300057f,0.593576491f,0.594852924f,0.596129358f,0.597405791f,0.598682225f,0.599958599f,0.601235032f,0.602511466f,0.604299366f,0.606087208f,0.607875109f,0.60966301f,0.611450851f,0.613238752f,0.615026593f,0.616814494f,0.618602395f,0.620390236f,0.622230947f,0.624071598f,0.625912249f,0.6277529f,0.629593551f,0.631434202f,0.633274913f,0.635115564f,0.636956215f,0.638796866f,0.640398145f,0.641999483f,0.643600762f,0.6452021f,0.646803379f,0.648404717f,0.650005996f,0.651607335f,0.653208613f,0.654809892f,0.65558356f,0.656357169f,0.657130778f,0.657904387f,0.658677995f,0.659451604f,0.660225213f,0.660998881f,0.66177249f,0.662546098f,0.662546337f,0.662546575f,0.662546813f,0.662547052f,0.66254729f,0.662547469f,0.662547708f,0.662547946f,0.662548184f,0.662548423f,0.662975073f,0.663401723f,0.663828373f,0.664255023f,0.664681673f,0.665108323f,0.665534973f,0.665961683f,0.666388333f,0.666814983f,0.600133479f,0.533451974f,0.46677047f,0.400088966f,0.333407491f,0.266725987f,0.200044483f,0.133362994f,0.0666814968f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth12[400] = {0.122364923f,0.126576677f,0.130788416f,0.135000169f,0.139211908f,0.143423647f,0.1476354f,0.151847139f,0.156058893f,0.160270631f,0.164482385f,0.170884579f,0.177286774f,0.183688954f,0.190091148f,0.196493343f,0.202895537f,0.209297732f,0.215699911f,0.222102106f,0.2285043f,0.234261796f,0.240019307f,0.245776802f,0.251534313f,0.257291794f,0.263049304f,0.268806815f,0.274564296f,0.280321807f,0.286079317f,0.290201843f,0.294324368f,0.298446894f,0.302569449f,0.306691974f,0.3108145f,0.314937025f,0.319059581f,0.323182106f,0.327304631f,0.330682427f,0.334060252f,0.337438047f,0.340815842f,0.344193667f,0.347571462f,0.350949258f,0.354327053f,0.357704878f,0.361082673f,0.363731086f,0.36637947f,0.369027883f,0.371676266f,0.374324679f,0.376973093f,0.379621476f,0.382269889f,0.384918272f,0.387566686f,0.388773441f,0.389980197f,0.391186953f,0.392393708f,0.393600464f,0.39480719f,0.396013945f,0.397220701f,0.398427457f,0.399634212f,0.398827702f,0.398021191f,0.397214681f,0.39640817f,0.39560166f,0.39479512f,0.393988609f,0.393182099f,0.392375588f,0.391569078f,0.388654947f,0.385740787f,0.382826656f,0.379912525f,0.376998395f,0.374084234f,0.371170104f,0.368255973f,0.365341842f,0.362427682f,0.357796758f,0.353165835f,0.348534882f,0.343903959f,0.339273036f,0.334642082f,0.330011159f,0.325380236f,0.320749313f,0.31611836f,0.310530901f,0.304943413f,0.299355954f,0.293768466f,0.288181007f,0.282593518f,0.27700606f,0.271418601f,0.265831113f,0.260243654f,0.255077422f,0.249911204f,0.244744986f,0.239578769f,0.234412536f,0.229246318f,0.224080101f,0.218913883f,0.213747665f,0.208581448f,0.204554185f,0.200526908f,0.196499646f,0.192472383f,0.188445121f,0.184417859f,0.180390596f,0.176363334f,0.172336057f,0.168308794f,0.165246353f,0.162183911f,0.159121469f,0.156059012f,0.15299657f,0.149934128f,0.146871686f,0.143809229f,0.140746787f,0.137684345f,0.135571867f,0.133459389f,0.131346926f,0.129234448f,0.12712197f,0.125009492f,0.122897021f,0.120784551f,0.118672073f,0.116559602f,0.11532858f,0.114097551f,0.112866528f,0.111635506f,0.110404484f,0.109173462f,0.10794244f,0.10671141f,0.105480388f,0.104249366f,0.103460953f,0.102672532f,0.101884119f,0.101095706f,0.100307286f,0.0995188728f,0.0987304598f,0.0979420394f,0.0971536264f,0.0963652134f,0.0957083181f,0.0950514227f,0.0943945274f,0.093737632f,0.0930807441f,0.0924238488f,0.0917669535f,0.0911100581f,0.0904531702f,0.0897962749f,0.0893673897f,0.0889385045f,0.0885096267f,0.0880807415f,0.0876518562f,0.087222971f,0.0867940933f,0.086365208f,0.0859363228f,0.0855074376f,0.0853290334f,0.0851506218f,0.0849722177f,0.0847938061f,0.0846153945f,0.0844369903f,0.0842585787f,0.0840801746f,0.083901763f,0.0837233588f,0.0837474093f,0.0837714672f,0.0837955177f,0.0838195756f,0.0838436261f,0.0838676766f,0.0838917345f,0.083915785f,0.0839398429f,0.0839638934f,0.0839990154f,0.08403413f,0.0840692446f,0.0841043591f,0.0841394812f,0.0841745958f,0.0842097104f,0.0842448249f,0.084279947f,0.0843150616f,0.0842946321f,0.0842742026f,0.0842537656f,0.0842333362f,0.0842129067f,0.0841924772f,0.0841720477f,0.0841516107f,0.0841311812f,0.0841107517f,0.0840857476f,0.0840607435f,0.0840357393f,0.0840107277f,0.0839857236f,0.0839607194f,0.0839357153f,0.0839107111f,0.083885707f,0.0838607028f,0.0839916468f,0.0841225833f,0.0842535272f,0.0843844712f,0.0845154077f,0.0846463516f,0.0847772956f,0.0849082395f,0.085039176f,0.08517012f,0.0856297985f,0.0860894769f,0.0865491554f,0.0870088339f,0.0874685124f,0.0879281908f,0.0883878693f,0.0888475478f,0.0893072262f,0.0897669047f,0.0905750394f,0.0913831815f,0.0921913162f,0.0929994583f,0.093807593f,0.0946157351f,0.0954238698f,0.0962320045f,0.0970401466f,0.0978482813f,0.0989758298f,0.100103386f,0.101230934f,0.102358483f,0.103486031f,0.10461358f,0.105741136f,0.106868684f,0.107996233f,0.109123781f,0.110557824f,0.111991867f,0.11342591f,0.114859954f,0.116293997f,0.11772804f,0.119162083f,0.120596126f,0.122030169f,0.123464204f,0.125387028f,0.127309844f,0.12923266f,0.131155476f,0.133078307f,0.135001123f,0.136923939f,0.138846755f,0.140769571f,0.142692387f,0.145353645f,0.148014903f,0.150676146f,0.153337404f,0.155998647f,0.158659905f,0.161321163f,0.163982406f,0.166643664f,0.169304922f,0.172839597f,0.176374272f,0.179908961f,0.183443636f,0.186978325f,0.190513f,0.194047689f,0.197582364f,0.201117039f,0.204651728f,0.20858185f,0.212511972f,0.216442093f,0.220372215f,0.224302337f,0.228232458f,0.23216258f,0.236092702f,0.240022823f,0.243952945f,0.248276383f,0.252599806f,0.256923258f,0.261246681f,0.265570134f,0.269893557f,0.27421698f,0.278540432f,0.282863855f,0.287187308f,0.291717082f,0.296246856f,0.300776631f,0.305306435f,0.309836209f,0.314365983f,0.318895757f,0.323425561f,0.327955335f,0.33248511f,0.299236596f,0.265988082f,0.232739583f,0.199491069f,0.166242555f,0.132994041f,0.0997455344f,0.0664970204f,0.0332485102f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth13[400] = {0.096004948f,0.0978706852f,0.0997364223f,0.101602167f,0.103467904f,0.105333641f,0.107199378f,0.109065115f,0.110930853f,0.112796597f,0.114662334f,0.116254345f,0.117846355f,0.119438365f,0.121030375f,0.122622386f,0.124214396f,0.125806406f,0.127398416f,0.128990427f,0.130582437f,0.131032363f,0.131482303f,0.131932244f,0.132382169f,0.13283211f,0.133282036f,0.133731976f,0.134181917f,0.134631842f,0.135081783f,0.134918407f,0.134755045f,0.134591669f,0.134428307f,0.134264931f,0.13410157f,0.133938193f,0.133774832f,0.133611456f,0.133448094f,0.133262455f,0.133076832f,0.132891193f,0.132705569f,0.132519931f,0.132334307f,0.132148668f,0.131963044f,0.131777406f,0.131591782f,0.131453648f,0.131315529f,0.13117741f,0.131039292f,0.130901158f,0.130763039f,0.13062492f,0.130486801f,0.130348668f,0.130210549f,0.130000189f,0.129789814f,0.129579455f,0.12936908f,0.12915872f,0.128948361f,0.128737986f,0.128527626f,0.128317252f,0.128106892f,0.127801284f,0.127495676f,0.127190068f,0.12688446f,0.126578853f,0.12627323f,0.125967622f,0.125662014f,0.125356406f,0.125050798f,0.124593303f,0.124135807f,0.123678312f,0.123220816f,0.122763313f,0.122305818f,0.121848322f,0.121390827f,0.120933332f,0.120475836f,0.119940631f,0.119405426f,0.118870221f,0.118335016f,0.117799811f,0.117264606f,0.116729401f,0.116194196f,0.115658991f,0.115123786f,0.114596218f,0.114068657f,0.113541096f,0.113013528f,0.112485968f,0.111958399f,0.111430839f,0.110903278f,0.11037571f,0.109848149f,0.10935732f,0.10886649f,0.108375661f,0.107884832f,0.107394002f,0.106903173f,0.106412344f,0.105921514f,0.105430685f,0.104939856f,0.104427926f,0.103915989f,0.103404053f,0.102892116f,0.102380179f,0.101868242f,0.101356313f,0.100844376f,0.100332439f,0.0998205021f,0.0993547589f,0.0988890156f,0.0984232724f,0.0979575291f,0.0974917859f,0.0970260426f,0.0965602994f,0.0960945562f,0.0956288129f,0.0951630697f,0.0949122384f,0.0946613997f,0.094410561f,0.0941597223f,0.0939088911f,0.0936580524f,0.0934072137f,0.093156375f,0.0929055363f,0.092654705f,0.0926359594f,0.0926172137f,0.0925984755f,0.0925797299f,0.0925609916f,0.092542246f,0.0925235003f,0.0925047547f,0.0924860165f,0.0924672708f,0.0925394669f,0.092611663f,0.0926838592f,0.0927560553f,0.0928282514f,0.092900455f,0.0929726511f,0.0930448472f,0.0931170434f,0.0931892395f,0.0934908837f,0.0937925354f,0.0940941796f,0.0943958312f,0.0946974754f,0.0949991196f,0.0953007713f,0.0956024155f,0.0959040672f,0.0962057114f,0.0973967761f,0.0985878408f,0.0997789055f,0.100969963f,0.102161027f,0.103352092f,0.104543149f,0.105734214f,0.106925279f,0.108116344f,0.112861425f,0.117606513f,0.122351602f,0.127096683f,0.131841779f,0.13658686f,0.141331941f,0.146077037f,0.150822118f,0.155567214f,0.166549489f,0.177531779f,0.188514069f,0.199496359f,0.210478649f,0.221460924f,0.232443213f,0.243425503f,0.254407793f,0.265390068f,0.278722227f,0.292054355f,0.305386513f,0.318718672f,0.3320508f,0.345382959f,0.358715087f,0.372047246f,0.385379374f,0.398711532f,0.408848524f,0.418985516f,0.429122508f,0.439259499f,0.449396491f,0.459533513f,0.469670504f,0.479807496f,0.489944488f,0.50008148f,0.505705237f,0.511328995f,0.516952753f,0.522576511f,0.528200269f,0.533824027f,0.539447784f,0.545071602f,0.55069536f,0.556319118f,0.558632255f,0.560945392f,0.563258588f,0.565571725f,0.567884862f,0.570198059f,0.572511196f,0.574824333f,0.57713747f,0.579450667f,0.580278099f,0.58110553f,0.581932962f,0.582760394f,0.583587825f,0.584415257f,0.585242689f,0.58607012f,0.586897552f,0.587724984f,0.588015199f,0.588305354f,0.58859551f,0.588885665f,0.58917582f,0.589466035f,0.589756191f,0.590046346f,0.590336502f,0.590626717f,0.590815008f,0.591003358f,0.591191709f,0.59138f,0.591568351f,0.591756701f,0.591944993f,0.592133343f,0.592321634f,0.592509985f,0.592704058f,0.59289813f,0.593092203f,0.593286276f,0.593480408f,0.593674481f,0.593868554f,0.594062626f,0.594256699f,0.594450772f,0.594790578f,0.595130444f,0.595470309f,0.595810115f,0.596149981f,0.596489787f,0.596829653f,0.597169459f,0.597509325f,0.597849131f,0.598283231f,0.598717332f,0.599151433f,0.599585533f,0.600019634f,0.600453734f,0.600887835f,0.601321936f,0.601756036f,0.602190137f,0.60266149f,0.603132844f,0.603604198f,0.604075491f,0.604546845f,0.605018198f,0.605489552f,0.605960906f,0.606432199f,0.606903553f,0.607138395f,0.607373238f,0.60760802f,0.607842863f,0.608077645f,0.608312488f,0.60854733f,0.608782113f,0.609016955f,0.609251797f,0.609222889f,0.609193981f,0.609165132f,0.609136224f,0.609107316f,0.609078407f,0.609049559f,0.60902065f,0.608991742f,0.608962893f,0.609090149f,0.609217405f,0.609344661f,0.609471858f,0.609599113f,0.609726369f,0.609853625f,0.609980881f,0.610108137f,0.610235393f,0.54921186f,0.488188326f,0.427164793f,0.36614126f,0.305117697f,0.244094163f,0.18307063f,0.122047082f,0.0610235408f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth14[400] = {0.091993697f,0.0943957195f,0.0967977494f,0.0991997793f,0.101601809f,0.104003832f,0.106405862f,0.108807892f,0.111209922f,0.113611944f,0.116013974f,0.118973427f,0.121932879f,0.124892332f,0.127851784f,0.130811229f,0.133770689f,0.136730134f,0.139689595f,0.14264904f,0.145608485f,0.147901088f,0.150193676f,0.15248628f,0.154778868f,0.157071471f,0.15936406f,0.161656663f,0.163949251f,0.166241854f,0.168534443f,0.16952762f,0.170520797f,0.17151396f,0.172507137f,0.173500314f,0.174493492f,0.175486654f,0.176479831f,0.177473009f,0.178466186f,0.177920938f,0.177375689f,0.176830441f,0.176285192f,0.175739944f,0.175194696f,0.174649447f,0.174104199f,0.17355895f,0.173013702f,0.171508923f,0.170004144f,0.168499365f,0.166994587f,0.165489823f,0.163985044f,0.162480265f,0.160975486f,0.159470707f,0.157965928f,0.156047791f,0.154129669f,0.152211532f,0.150293395f,0.148375258f,0.146457121f,0.144538984f,0.142620847f,0.140702724f,0.138784587f,0.136819273f,0.134853959f,0.132888645f,0.130923331f,0.128958017f,0.126992702f,0.125027403f,0.123062082f,0.121096767f,0.119131461f,0.117357858f,0.115584254f,0.113810651f,0.112037048f,0.110263444f,0.108489841f,0.106716238f,0.104942635f,0.103169039f,0.101395436f,0.0999505296f,0.0985056162f,0.0970607102f,0.0956158042f,0.0941708982f,0.0927259922f,0.0912810862f,0.0898361728f,0.0883912668f,0.0869463608f,0.0857698545f,0.0845933482f,0.0834168494f,0.0822403431f,0.0810638368f,0.0798873305f,0.0787108243f,0.077534318f,0.0763578117f,0.0751813129f,0.0742726773f,0.0733640417f,0.0724554062f,0.0715467706f,0.0706381351f,0.069729507f,0.0688208714f,0.0679122359f,0.0670036003f,0.0660949647f,0.0655173212f,0.0649396777f,0.0643620268f,0.0637843832f,0.0632067397f,0.0626290888f,0.0620514452f,0.061473798f,0.0608961545f,0.0603185073f,0.0599326566f,0.0595468022f,0.0591609515f,0.0587751009f,0.0583892502f,0.0580033995f,0.0576175489f,0.0572316982f,0.0568458475f,0.0564599968f,0.0561258234f,0.05579165f,0.0554574803f,0.0551233068f,0.0547891371f,0.0544549637f,0.0541207902f,0.0537866205f,0.0534524508f,0.0531182773f,0.0529273525f,0.0527364314f,0.0525455102f,0.0523545854f,0.0521636643f,0.0519727431f,0.0517818183f,0.0515908971f,0.051399976f,0.0512090512f,0.05121224f,0.0512154251f,0.0512186103f,0.0512217991f,0.0512249842f,0.0512281694f,0.0512313582f,0.0512345433f,0.0512377284f,0.0512409136f,0.0513118431f,0.0513827689f,0.0514536984f,0.0515246242f,0.05159555f,0.0516664796f,0.0517374054f,0.0518083312f,0.0518792607f,0.0519501865f,0.0519424193f,0.051934652f,0.0519268848f,0.0519191176f,0.0519113503f,0.0519035868f,0.0518958196f,0.0518880524f,0.0518802851f,0.0518725179f,0.051805079f,0.0517376401f,0.0516702011f,0.0516027622f,0.0515353233f,0.0514678843f,0.0514004454f,0.0513330065f,0.0512655675f,0.0511981286f,0.0513203181f,0.0514425077f,0.0515646935f,0.051686883f,0.0518090725f,0.0519312583f,0.0520534478f,0.0521756336f,0.0522978231f,0.0524200127f,0.0530192629f,0.0536185168f,0.054217767f,0.0548170209f,0.0554162748f,0.056015525f,0.0566147752f,0.0572140291f,0.0578132793f,0.0584125333f,0.0598892011f,0.0613658652f,0.062842533f,0.0643192008f,0.0657958686f,0.0672725365f,0.0687492043f,0.0702258721f,0.0717025325f,0.0731792003f,0.0754128397f,0.077646479f,0.0798801184f,0.0821137577f,0.0843473971f,0.0865810364f,0.0888146758f,0.0910483152f,0.0932819545f,0.0955155939f,0.0978565663f,0.100197539f,0.102538519f,0.104879491f,0.107220463f,0.109561436f,0.111902408f,0.114243388f,0.116584361f,0.118925333f,0.121172249f,0.123419166f,0.125666082f,0.127912998f,0.130159914f,0.132406816f,0.134653732f,0.136900648f,0.139147565f,0.141394481f,0.143809125f,0.146223754f,0.148638397f,0.151053041f,0.15346767f,0.155882314f,0.158296958f,0.160711586f,0.16312623f,0.165540874f,0.168391362f,0.17124185f,0.174092352f,0.17694284f,0.179793343f,0.182643831f,0.185494334f,0.188344821f,0.191195324f,0.194045812f,0.197347447f,0.200649068f,0.203950703f,0.207252339f,0.210553959f,0.213855594f,0.217157215f,0.22045885f,0.223760486f,0.227062106f,0.23089534f,0.23472856f,0.238561794f,0.242395014f,0.246228248f,0.250061482f,0.253894687f,0.257727921f,0.261561155f,0.26539439f,0.269747376f,0.274100363f,0.27845338f,0.282806367f,0.287159383f,0.29151237f,0.295865387f,0.300218374f,0.30457136f,0.308924377f,0.313487202f,0.318049997f,0.322612822f,0.327175647f,0.331738472f,0.336301267f,0.340864092f,0.345426917f,0.349989712f,0.354552537f,0.358673841f,0.362795115f,0.366916418f,0.371037692f,0.375158995f,0.379280269f,0.383401573f,0.387522846f,0.39164415f,0.395765424f,0.399772584f,0.403779775f,0.407786936f,0.411794096f,0.415801257f,0.419808418f,0.423815608f,0.427822769f,0.431829929f,0.43583709f,0.440100282f,0.444363475f,0.448626667f,0.45288986f,0.457153052f,0.461416245f,0.465679437f,0.469942659f,0.474205852f,0.478469044f,0.430622131f,0.382775217f,0.334928334f,0.28708142f,0.239234522f,0.191387609f,0.14354071f,0.0956938043f,0.0478469022f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth15[400] = {0.0610312186f,0.0610528626f,0.0610745102f,0.0610961579f,0.0611178055f,0.0611394532f,0.0611611009f,0.0611827485f,0.0612043962f,0.0612260439f,0.0612476915f,0.0613153055f,0.0613829158f,0.0614505298f,0.0615181401f,0.0615857504f,0.0616533644f,0.0617209747f,0.0617885888f,0.0618561991f,0.0619238131f,0.0620229058f,0.0621219985f,0.062221095f,0.0623201877f,0.0624192804f,0.0625183731f,0.0626174733f,0.062716566f,0.0628156587f,0.0629147515f,0.0630203038f,0.0631258562f,0.0632314086f,0.063336961f,0.0634425133f,0.0635480657f,0.0636536181f,0.0637591705f,0.0638647228f,0.0639702752f,0.064166069f,0.0643618703f,0.0645576715f,0.0647534728f,0.0649492741f,0.0651450753f,0.0653408766f,0.0655366778f,0.0657324791f,0.0659282804f,0.0662564561f,0.0665846318f,0.0669128075f,0.0672409907f,0.0675691664f,0.0678973421f,0.0682255253f,0.068553701f,0.0688818768f,0.0692100525f,0.0697615817f,0.0703131109f,0.0708646402f,0.071416162f,0.0719676912f,0.0725192204f,0.0730707496f,0.0736222714f,0.0741738006f,0.0747253299f,0.0758017674f,0.0768782049f,0.0779546425f,0.0790310875f,0.080107525f,0.0811839625f,0.0822604001f,0.0833368376f,0.0844132751f,0.0854897201f,0.0874469727f,0.0894042253f,0.0913614854f,0.093318738f,0.0952759907f,0.0972332433f,0.0991905034f,0.101147756f,0.103105009f,0.105062269f,0.108422853f,0.111783437f,0.115144022f,0.118504614f,0.121865198f,0.125225782f,0.128586367f,0.131946951f,0.135307536f,0.13866812f,0.144010022f,0.149351925f,0.154693812f,0.160035715f,0.165377617f,0.170719504f,0.176061407f,0.181403309f,0.186745197f,0.192087099f,0.199951231f,0.207815364f,0.215679497f,0.223543629f,0.231407762f,0.239271894f,0.247136027f,0.255000174f,0.262864292f,0.270728439f,0.281266272f,0.291804105f,0.302341908f,0.312879741f,0.323417574f,0.333955407f,0.34449324f,0.355031073f,0.365568906f,0.376106739f,0.386073679f,0.396040648f,0.406007618f,0.415974587f,0.425941527f,0.435908496f,0.445875466f,0.455842435f,0.465809375f,0.475776345f,0.481321096f,0.486865848f,0.4924106f,0.497955352f,0.503500104f,0.509044886f,0.514589608f,0.520134389f,0.525679111f,0.531223893f,0.533017218f,0.534810603f,0.536603928f,0.538397312f,0.540190697f,0.541984022f,0.543777406f,0.545570791f,0.547364116f,0.5491575f,0.548813224f,0.548469007f,0.548124731f,0.547780454f,0.547436237f,0.547091961f,0.546747684f,0.546403468f,0.546059191f,0.545714915f,0.543950677f,0.542186439f,0.540422201f,0.538657904f,0.536893666f,0.535129428f,0.53336519f,0.531600893f,0.529836655f,0.528072417f,0.525710762f,0.523349166f,0.520987511f,0.518625855f,0.5162642f,0.513902605f,0.511540949f,0.509179294f,0.506817639f,0.504456043f,0.501062453f,0.497668833f,0.494275242f,0.490881652f,0.487488061f,0.484094471f,0.48070088f,0.47730726f,0.47391367f,0.470520079f,0.466231853f,0.461943656f,0.45765543f,0.453367203f,0.449079007f,0.444790781f,0.440502554f,0.436214358f,0.431926131f,0.427637905f,0.422998637f,0.418359339f,0.413720071f,0.409080774f,0.404441506f,0.399802208f,0.39516291f,0.390523642f,0.385884345f,0.381245077f,0.377800435f,0.374355793f,0.370911151f,0.367466539f,0.364021897f,0.360577255f,0.357132614f,0.353687972f,0.35024336f,0.346798718f,0.344863176f,0.342927635f,0.340992093f,0.339056551f,0.33712104f,0.335185498f,0.333249956f,0.331314415f,0.329378873f,0.327443361f,0.326469749f,0.325496107f,0.324522495f,0.323548883f,0.322575271f,0.321601659f,0.320628047f,0.319654435f,0.318680823f,0.317707211f,0.317183167f,0.316659153f,0.316135138f,0.315611124f,0.31508711f,0.314563066f,0.314039052f,0.313515037f,0.312991023f,0.312466979f,0.312213838f,0.311960697f,0.311707556f,0.311454415f,0.311201274f,0.310948133f,0.310694993f,0.310441852f,0.310188711f,0.30993557f,0.310383081f,0.310830593f,0.311278105f,0.311725616f,0.312173128f,0.31262064f,0.313068151f,0.313515663f,0.313963175f,0.314410686f,0.315710306f,0.317009896f,0.318309486f,0.319609106f,0.320908695f,0.322208285f,0.323507875f,0.324807495f,0.326107085f,0.327406675f,0.329188615f,0.330970556f,0.332752466f,0.334534407f,0.336316347f,0.338098258f,0.339880198f,0.341662109f,0.343444049f,0.34522599f,0.346958429f,0.348690867f,0.350423306f,0.352155745f,0.353888184f,0.355620623f,0.357353032f,0.35908547f,0.360817909f,0.362550348f,0.363916934f,0.365283489f,0.366650045f,0.36801663f,0.369383186f,0.370749772f,0.372116327f,0.373482883f,0.374849468f,0.376216024f,0.376648724f,0.377081394f,0.377514094f,0.377946764f,0.378379464f,0.378812134f,0.379244834f,0.379677504f,0.380110204f,0.380542904f,0.380256027f,0.37996918f,0.379682302f,0.379395455f,0.379108578f,0.378821731f,0.378534853f,0.378248006f,0.377961129f,0.377674282f,0.377847463f,0.378020674f,0.378193855f,0.378367066f,0.378540277f,0.378713459f,0.37888667f,0.379059881f,0.379233062f,0.379406273f,0.341465652f,0.303525001f,0.265584379f,0.227643758f,0.189703137f,0.1517625f,0.113821879f,0.0758812502f,0.0379406288f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth16[400] = {0.0628174469f,0.0628198013f,0.0628221557f,0.06282451f,0.0628268644f,0.0628292188f,0.0628315732f,0.0628339276f,0.062836282f,0.0628386363f,0.0628409907f,0.0628905669f,0.0629401505f,0.0629897341f,0.0630393177f,0.0630888939f,0.0631384775f,0.0631880611f,0.0632376447f,0.0632872283f,0.0633368045f,0.0633573532f,0.0633778945f,0.0633984357f,0.0634189844f,0.0634395257f,0.0634600744f,0.0634806156f,0.0635011569f,0.0635217056f,0.0635422468f,0.0635589287f,0.0635756105f,0.0635922849f,0.0636089668f,0.0636256486f,0.0636423305f,0.0636590049f,0.0636756867f,0.0636923686f,0.0637090504f,0.0637799725f,0.0638508946f,0.0639218241f,0.0639927462f,0.0640636683f,0.0641345978f,0.0642055199f,0.0642764419f,0.0643473715f,0.0644182935f,0.0645125061f,0.0646067113f,0.0647009239f,0.0647951365f,0.0648893416f,0.0649835542f,0.0650777668f,0.0651719794f,0.0652661845f,0.0653603971f,0.0654233694f,0.0654863492f,0.0655493215f,0.0656123012f,0.0656752735f,0.0657382533f,0.0658012256f,0.0658642054f,0.0659271777f,0.0659901574f,0.0660848096f,0.0661794618f,0.066274114f,0.0663687587f,0.0664634109f,0.066558063f,0.0666527152f,0.0667473674f,0.0668420196f,0.0669366717f,0.0670842677f,0.0672318712f,0.0673794672f,0.0675270706f,0.0676746666f,0.0678222701f,0.0679698735f,0.0681174695f,0.068265073f,0.068412669f,0.068699643f,0.068986617f,0.069273591f,0.0695605725f,0.0698475465f,0.0701345205f,0.0704214945f,0.0707084686f,0.0709954426f,0.0712824166f,0.0717247725f,0.0721671209f,0.0726094693f,0.0730518252f,0.0734941736f,0.0739365295f,0.0743788779f,0.0748212337f,0.0752635822f,0.075705938f,0.0768575221f,0.0780090988f,0.0791606829f,0.0803122669f,0.081463851f,0.0826154351f,0.0837670118f,0.0849185959f,0.0860701799f,0.087221764f,0.0910304338f,0.0948391035f,0.0986477733f,0.102456443f,0.106265113f,0.110073783f,0.113882452f,0.117691122f,0.121499792f,0.125308454f,0.133360907f,0.141413346f,0.149465784f,0.157518238f,0.165570676f,0.173623115f,0.181675568f,0.189728007f,0.197780445f,0.205832899f,0.215775892f,0.225718901f,0.235661909f,0.245604917f,0.255547911f,0.265490919f,0.275433928f,0.285376936f,0.295319945f,0.305262953f,0.313052118f,0.320841283f,0.328630418f,0.336419582f,0.344208747f,0.351997912f,0.359787077f,0.367576241f,0.375365376f,0.383154541f,0.387933373f,0.392712206f,0.397491038f,0.40226987f,0.407048702f,0.411827534f,0.416606367f,0.421385199f,0.426164031f,0.430942863f,0.43476364f,0.438584417f,0.442405194f,0.446225941f,0.450046718f,0.453867495f,0.457688272f,0.461509049f,0.465329796f,0.469150573f,0.474024534f,0.478898525f,0.483772486f,0.488646448f,0.493520439f,0.4983944f,0.503268361f,0.508142352f,0.513016284f,0.517890275f,0.522894084f,0.527897835f,0.532901645f,0.537905395f,0.542909205f,0.547912955f,0.552916765f,0.557920516f,0.562924325f,0.567928076f,0.571823299f,0.575718462f,0.579613626f,0.58350879f,0.587403953f,0.591299176f,0.59519434f,0.599089503f,0.602984667f,0.60687983f,0.608996511f,0.611113191f,0.613229811f,0.615346491f,0.617463171f,0.619579792f,0.621696472f,0.623813152f,0.625929773f,0.628046453f,0.628944874f,0.629843295f,0.630741775f,0.631640196f,0.632538617f,0.633437097f,0.634335518f,0.635233939f,0.63613236f,0.63703084f,0.637326837f,0.637622893f,0.637918949f,0.638215005f,0.638511062f,0.638807118f,0.639103115f,0.639399171f,0.639695227f,0.639991283f,0.640190065f,0.640388846f,0.640587628f,0.640786469f,0.64098525f,0.641184032f,0.641382813f,0.641581595f,0.641780436f,0.641979218f,0.642326176f,0.642673135f,0.643020093f,0.643367052f,0.643714011f,0.644060969f,0.644407928f,0.644754887f,0.645101845f,0.645448804f,0.645727873f,0.646007001f,0.64628607f,0.646565139f,0.646844208f,0.647123277f,0.647402406f,0.647681475f,0.647960544f,0.648239613f,0.648517489f,0.648795366f,0.649073243f,0.64935112f,0.649628997f,0.649906874f,0.650184751f,0.650462627f,0.650740564f,0.651018441f,0.651223242f,0.651428044f,0.651632905f,0.651837707f,0.652042568f,0.652247369f,0.652452171f,0.652657032f,0.652861834f,0.653066695f,0.65349561f,0.653924465f,0.65435338f,0.654782295f,0.65521121f,0.655640125f,0.65606904f,0.656497955f,0.65692687f,0.657355785f,0.658023477f,0.658691168f,0.659358859f,0.66002655f,0.660694242f,0.661361992f,0.662029684f,0.662697375f,0.663365066f,0.664032757f,0.6648947f,0.665756643f,0.666618586f,0.667480528f,0.668342471f,0.669204414f,0.670066357f,0.670928299f,0.671790302f,0.672652245f,0.673357129f,0.674062073f,0.674767017f,0.675471902f,0.676176846f,0.67688179f,0.677586675f,0.678291619f,0.678996563f,0.679701447f,0.680107653f,0.680513799f,0.680919945f,0.681326091f,0.681732297f,0.682138443f,0.682544589f,0.682950735f,0.683356941f,0.683763087f,0.684215486f,0.684667885f,0.685120344f,0.685572743f,0.686025143f,0.686477602f,0.686930001f,0.6873824f,0.687834799f,0.688287258f,0.619458497f,0.550629795f,0.481801063f,0.412972331f,0.344143629f,0.275314897f,0.206486166f,0.137657449f,0.0688287243f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth21[400] = {0.0662447959f,0.0674839318f,0.0687230676f,0.0699622035f,0.0712013394f,0.0724404752f,0.0736796111f,0.0749187469f,0.0761578828f,0.0773970187f,0.0786361545f,0.08093144f,0.0832267255f,0.0855220109f,0.0878172964f,0.0901125893f,0.0924078748f,0.0947031602f,0.0969984457f,0.0992937312f,0.101589017f,0.105984263f,0.11037951f,0.114774749f,0.119169995f,0.123565242f,0.127960488f,0.13235572f,0.136750966f,0.141146213f,0.145541459f,0.150938734f,0.156336024f,0.161733299f,0.167130575f,0.17252785f,0.17792514f,0.183322415f,0.18871969f,0.194116965f,0.199514255f,0.204002768f,0.208491281f,0.212979794f,0.217468306f,0.221956819f,0.226445347f,0.23093386f,0.235422373f,0.239910886f,0.244399399f,0.248209178f,0.252018958f,0.255828708f,0.259638488f,0.263448268f,0.267258048f,0.271067798f,0.274877578f,0.278687358f,0.282497138f,0.285183191f,0.287869245f,0.290555328f,0.293241382f,0.295927435f,0.298613518f,0.301299572f,0.303985655f,0.306671709f,0.309357762f,0.309180945f,0.309004098f,0.308827251f,0.308650404f,0.308473557f,0.30829671f,0.308119863f,0.307943016f,0.307766169f,0.307589322f,0.304611176f,0.301633f,0.298654854f,0.295676678f,0.292698532f,0.289720356f,0.28674221f,0.283764035f,0.280785859f,0.277807713f,0.273113668f,0.268419623f,0.263725579f,0.259031534f,0.25433749f,0.249643445f,0.2449494f,0.240255341f,0.235561296f,0.230867252f,0.225534514f,0.220201761f,0.214869022f,0.209536269f,0.204203531f,0.198870778f,0.19353804f,0.188205287f,0.182872549f,0.177539796f,0.172757164f,0.167974532f,0.1631919f,0.158409268f,0.153626636f,0.148844004f,0.144061372f,0.13927874f,0.134496108f,0.129713476f,0.126170054f,0.122626632f,0.119083203f,0.115539782f,0.111996353f,0.108452931f,0.104909502f,0.10136608f,0.0978226513f,0.0942792222f,0.0918054357f,0.0893316492f,0.0868578553f,0.0843840688f,0.0819102749f,0.0794364884f,0.0769626945f,0.0744889081f,0.0720151216f,0.0695413277f,0.0679861382f,0.0664309412f,0.0648757517f,0.0633205548f,0.0617653616f,0.0602101684f,0.0586549751f,0.0570997857f,0.0555445924f,0.0539893992f,0.0531726182f,0.0523558371f,0.051539056f,0.0507222749f,0.0499054939f,0.0490887128f,0.0482719317f,0.0474551506f,0.0466383696f,0.0458215885f,0.0454061292f,0.0449906737f,0.0445752181f,0.0441597588f,0.0437443033f,0.0433288477f,0.0429133885f,0.0424979329f,0.0420824774f,0.0416670218f,0.0414441749f,0.0412213281f,0.0409984812f,0.0407756381f,0.0405527912f,0.0403299443f,0.0401070975f,0.0398842543f,0.0396614075f,0.0394385606f,0.0393257104f,0.0392128602f,0.0391000062f,0.038987156f,0.0388743058f,0.0387614518f,0.0386486016f,0.0385357514f,0.0384228975f,0.0383100472f,0.0382540338f,0.0381980166f,0.0381420031f,0.0380859859f,0.0380299725f,0.037973959f,0.0379179418f,0.0378619283f,0.0378059112f,0.0377498977f,0.0377501957f,0.03775049f,0.0377507843f,0.0377510823f,0.0377513766f,0.0377516747f,0.037751969f,0.037752267f,0.0377525613f,0.0377528593f,0.0377745181f,0.037796177f,0.0378178358f,0.0378394946f,0.0378611535f,0.0378828123f,0.0379044712f,0.03792613f,0.0379477888f,0.0379694477f,0.0380245522f,0.0380796567f,0.0381347612f,0.0381898694f,0.0382449739f,0.0383000784f,0.0383551829f,0.0384102874f,0.0384653956f,0.0385205001f,0.0385931432f,0.0386657901f,0.0387384333f,0.0388110764f,0.0388837233f,0.0389563665f,0.0390290096f,0.0391016565f,0.0391742997f,0.0392469428f,0.0393088162f,0.0393706895f,0.0394325592f,0.0394944325f,0.0395563059f,0.0396181792f,0.0396800525f,0.0397419222f,0.0398037955f,0.0398656689f,0.0399586745f,0.0400516763f,0.0401446819f,0.0402376875f,0.0403306894f,0.040423695f,0.0405167006f,0.0406097025f,0.0407027081f,0.0407957137f,0.0409485139f,0.0411013179f,0.0412541181f,0.0414069183f,0.0415597185f,0.0417125225f,0.0418653227f,0.042018123f,0.0421709232f,0.0423237272f,0.0425092541f,0.0426947847f,0.0428803116f,0.0430658422f,0.0432513691f,0.0434368998f,0.0436224267f,0.0438079536f,0.0439934842f,0.0441790111f,0.0443084612f,0.0444379076f,0.0445673577f,0.0446968041f,0.0448262505f,0.0449557006f,0.045085147f,0.0452145971f,0.0453440435f,0.0454734936f,0.0455105714f,0.045547653f,0.0455847345f,0.0456218123f,0.0456588939f,0.0456959754f,0.045733057f,0.0457701385f,0.0458072163f,0.0458442979f,0.045901645f,0.0459589958f,0.0460163429f,0.0460736901f,0.0461310372f,0.0461883843f,0.0462457314f,0.0463030823f,0.0463604294f,0.0464177765f,0.0466127731f,0.0468077697f,0.0470027663f,0.0471977629f,0.0473927595f,0.0475877561f,0.0477827527f,0.0479777493f,0.0481727459f,0.0483677424f,0.0487481542f,0.0491285697f,0.0495089814f,0.0498893932f,0.0502698086f,0.0506502204f,0.0510306358f,0.0514110476f,0.051791463f,0.0521718748f,0.0526857898f,0.0531997047f,0.0537136197f,0.0542275347f,0.0547414497f,0.0552553646f,0.0557692796f,0.0562831908f,0.0567971058f,0.0573110208f,0.0580782369f,0.058845453f,0.0596126691f,0.0603798851f,0.0611471012f,0.0619143173f,0.0626815334f,0.0634487495f,0.0642159656f,0.0649831817f,0.0584848598f,0.0519865416f,0.0454882234f,0.0389899053f,0.0324915908f,0.0259932708f,0.0194949545f,0.0129966363f,0.00649831817f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth22[400] = {0.0519505851f,0.0520615727f,0.052172564f,0.0522835515f,0.0523945428f,0.0525055304f,0.0526165217f,0.0527275093f,0.0528385006f,0.0529494882f,0.0530604795f,0.0531744137f,0.0532883443f,0.0534022786f,0.0535162129f,0.0536301471f,0.0537440777f,0.053858012f,0.0539719462f,0.0540858805f,0.0541998148f,0.0543245524f,0.0544492938f,0.0545740351f,0.0546987765f,0.0548235178f,0.0549482591f,0.0550730005f,0.0551977418f,0.0553224832f,0.0554472245f,0.0555791222f,0.0557110235f,0.0558429249f,0.0559748262f,0.0561067276f,0.0562386252f,0.0563705266f,0.0565024279f,0.0566343293f,0.0567662306f,0.0569458529f,0.0571254753f,0.0573050976f,0.0574847236f,0.0576643459f,0.0578439683f,0.0580235906f,0.0582032129f,0.0583828352f,0.0585624613f,0.0588435382f,0.059124615f,0.0594056956f,0.0596867725f,0.0599678494f,0.0602489263f,0.0605300032f,0.0608110838f,0.0610921606f,0.0613732375f,0.0618118607f,0.0622504801f,0.0626890957f,0.0631277189f,0.063566342f,0.0640049577f,0.0644435808f,0.0648822039f,0.0653208196f,0.0657594427f,0.0666669086f,0.0675743818f,0.0684818476f,0.0693893209f,0.0702967867f,0.07120426f,0.0721117258f,0.0730191916f,0.0739266649f,0.0748341307f,0.076619938f,0.0784057379f,0.0801915377f,0.081977345f,0.0837631449f,0.0855489448f,0.0873347521f,0.0891205519f,0.0909063518f,0.0926921517f,0.0959111601f,0.0991301686f,0.102349177f,0.105568185f,0.108787186f,0.112006195f,0.115225203f,0.118444212f,0.12166322f,0.124882229f,0.130183131f,0.135484025f,0.140784934f,0.146085843f,0.151386738f,0.156687647f,0.161988541f,0.167289451f,0.17259036f,0.177891254f,0.184680641f,0.191470042f,0.198259428f,0.205048814f,0.211838201f,0.218627602f,0.225416988f,0.232206374f,0.238995761f,0.245785162f,0.251931727f,0.258078277f,0.264224857f,0.270371407f,0.276517957f,0.282664537f,0.288811088f,0.294957638f,0.301104218f,0.307250768f,0.310241461f,0.313232154f,0.316222847f,0.319213539f,0.322204232f,0.325194925f,0.328185618f,0.331176311f,0.334167004f,0.337157696f,0.336795509f,0.336433321f,0.336071134f,0.335708946f,0.335346758f,0.334984571f,0.334622383f,0.334260195f,0.333898008f,0.33353582f,0.331835121f,0.330134392f,0.328433692f,0.326732963f,0.325032264f,0.323331565f,0.321630836f,0.319930136f,0.318229407f,0.316528708f,0.314175218f,0.311821729f,0.30946824f,0.30711475f,0.304761261f,0.302407801f,0.300054312f,0.297700822f,0.295347333f,0.292993844f,0.289880902f,0.28676796f,0.283655018f,0.280542076f,0.277429134f,0.274316192f,0.27120325f,0.268090278f,0.264977336f,0.261864394f,0.258677214f,0.255490005f,0.252302825f,0.249115631f,0.245928451f,0.242741257f,0.239554062f,0.236366868f,0.233179688f,0.229992494f,0.226758614f,0.223524734f,0.22029084f,0.21705696f,0.21382308f,0.2105892f,0.20735532f,0.204121441f,0.200887561f,0.197653681f,0.194392055f,0.19113043f,0.187868804f,0.184607178f,0.181345552f,0.178083926f,0.174822301f,0.171560675f,0.168299049f,0.165037423f,0.162034944f,0.159032479f,0.156030014f,0.153027549f,0.150025085f,0.147022605f,0.14402014f,0.141017675f,0.138015211f,0.135012746f,0.133001506f,0.130990267f,0.128979027f,0.126967803f,0.124956563f,0.122945324f,0.120934092f,0.118922852f,0.11691162f,0.11490038f,0.113807522f,0.112714656f,0.111621797f,0.110528938f,0.109436072f,0.108343214f,0.107250348f,0.106157489f,0.105064623f,0.103971764f,0.103366055f,0.102760337f,0.102154627f,0.101548918f,0.1009432f,0.10033749f,0.0997317806f,0.0991260707f,0.0985203534f,0.0979146436f,0.0975621417f,0.0972096398f,0.0968571305f,0.0965046287f,0.0961521268f,0.0957996175f,0.0954471156f,0.0950946137f,0.0947421119f,0.0943896025f,0.0941855088f,0.0939814076f,0.0937773138f,0.0935732126f,0.0933691189f,0.0931650251f,0.0929609239f,0.0927568302f,0.092552729f,0.0923486352f,0.0923907608f,0.0924328938f,0.0924750268f,0.0925171524f,0.0925592855f,0.0926014185f,0.0926435441f,0.0926856771f,0.0927278027f,0.0927699357f,0.0931456089f,0.0935212821f,0.0938969553f,0.0942726284f,0.0946483016f,0.0950239748f,0.095399648f,0.0957753211f,0.0961509943f,0.0965266675f,0.0971141607f,0.0977016464f,0.0982891396f,0.0988766253f,0.0994641185f,0.100051604f,0.100639097f,0.101226583f,0.101814076f,0.102401562f,0.103003696f,0.103605829f,0.104207963f,0.104810096f,0.105412222f,0.106014356f,0.10661649f,0.107218623f,0.107820757f,0.10842289f,0.108925909f,0.109428927f,0.109931946f,0.110434964f,0.11093799f,0.111441009f,0.111944027f,0.112447046f,0.112950072f,0.11345309f,0.113640368f,0.113827653f,0.114014931f,0.114202209f,0.114389487f,0.114576772f,0.11476405f,0.114951327f,0.115138613f,0.11532589f,0.115185589f,0.115045294f,0.114904992f,0.11476469f,0.114624396f,0.114484094f,0.1143438f,0.114203498f,0.114063196f,0.113922901f,0.113957621f,0.113992341f,0.114027061f,0.11406178f,0.1140965f,0.11413122f,0.114165939f,0.114200659f,0.114235379f,0.114270099f,0.102843091f,0.0914160758f,0.0799890682f,0.0685620606f,0.0571350493f,0.0457080379f,0.0342810303f,0.0228540208f,0.0114270104f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth23[400] = {0.0499232262f,0.0498081259f,0.0496930294f,0.0495779291f,0.0494628325f,0.0493477322f,0.0492326356f,0.0491175354f,0.0490024388f,0.0488873385f,0.0487722419f,0.0486543663f,0.0485364906f,0.0484186187f,0.0483007431f,0.0481828675f,0.0480649956f,0.0479471199f,0.0478292443f,0.0477113687f,0.0475934967f,0.0475577302f,0.0475219674f,0.0474862047f,0.0474504381f,0.0474146754f,0.0473789126f,0.0473431498f,0.047307387f,0.0472716205f,0.0472358577f,0.0472285822f,0.0472213104f,0.0472140349f,0.0472067595f,0.047199484f,0.0471922085f,0.0471849367f,0.0471776612f,0.0471703857f,0.0471631102f,0.0471822433f,0.0472013764f,0.0472205095f,0.0472396426f,0.0472587757f,0.0472779088f,0.0472970381f,0.0473161712f,0.0473353043f,0.0473544374f,0.0473608747f,0.0473673083f,0.0473737456f,0.0473801792f,0.0473866165f,0.04739305f,0.0473994873f,0.0474059209f,0.0474123582f,0.0474187918f,0.0473689288f,0.0473190621f,0.0472691953f,0.0472193286f,0.0471694618f,0.0471195988f,0.0470697321f,0.0470198654f,0.0469699986f,0.0469201319f,0.0468353666f,0.0467506014f,0.0466658361f,0.0465810671f,0.0464963019f,0.0464115366f,0.0463267714f,0.0462420061f,0.0461572371f,0.0460724719f,0.045982752f,0.0458930284f,0.0458033085f,0.0457135849f,0.0456238613f,0.0455341414f,0.0454444177f,0.0453546979f,0.0452649742f,0.0451752506f,0.0451016575f,0.0450280644f,0.0449544676f,0.0448808745f,0.0448072813f,0.0447336882f,0.0446600914f,0.0445864983f,0.0445129052f,0.0444393083f,0.0444242507f,0.0444091931f,0.0443941317f,0.0443790741f,0.0443640165f,0.0443489552f,0.0443338975f,0.0443188362f,0.0443037786f,0.0442887209f,0.0443279296f,0.0443671383f,0.0444063507f,0.0444455594f,0.0444847718f,0.0445239805f,0.0445631891f,0.0446024016f,0.0446416102f,0.0446808189f,0.0447723083f,0.0448637977f,0.0449552871f,0.0450467765f,0.0451382659f,0.0452297553f,0.0453212447f,0.0454127342f,0.0455042236f,0.045595713f,0.0457141623f,0.0458326116f,0.0459510647f,0.046069514f,0.0461879633f,0.0463064127f,0.046424862f,0.0465433113f,0.0466617644f,0.0467802137f,0.0468661971f,0.0469521843f,0.0470381677f,0.0471241511f,0.0472101383f,0.0472961217f,0.0473821051f,0.0474680923f,0.0475540757f,0.0476400591f,0.0477346405f,0.0478292219f,0.0479238033f,0.0480183847f,0.0481129624f,0.0482075438f,0.0483021252f,0.0483967066f,0.048491288f,0.0485858694f,0.0487638079f,0.0489417464f,0.0491196848f,0.0492976233f,0.0494755618f,0.0496535003f,0.0498314388f,0.0500093773f,0.0501873158f,0.0503652543f,0.0507134125f,0.0510615706f,0.0514097326f,0.0517578907f,0.0521060489f,0.0524542108f,0.052802369f,0.0531505272f,0.0534986854f,0.0538468473f,0.0544482246f,0.0550496057f,0.055650983f,0.0562523603f,0.0568537414f,0.0574551187f,0.0580564998f,0.0586578771f,0.0592592545f,0.0598606355f,0.0610863119f,0.062311992f,0.0635376722f,0.0647633448f,0.0659890249f,0.067214705f,0.0684403777f,0.0696660578f,0.0708917379f,0.0721174181f,0.0752615631f,0.0784057081f,0.0815498531f,0.0846939981f,0.0878381431f,0.0909822881f,0.0941264331f,0.0972705781f,0.100414723f,0.103558868f,0.110955209f,0.118351556f,0.125747904f,0.133144245f,0.140540585f,0.147936925f,0.155333281f,0.162729621f,0.170125961f,0.177522302f,0.190977246f,0.204432189f,0.217887118f,0.231342062f,0.244797006f,0.258251935f,0.271706879f,0.285161823f,0.298616767f,0.312071681f,0.327547818f,0.343023926f,0.358500034f,0.373976171f,0.389452279f,0.404928416f,0.420404524f,0.435880631f,0.451356769f,0.466832876f,0.478232741f,0.489632607f,0.501032472f,0.512432337f,0.523832202f,0.535232067f,0.546631932f,0.558031797f,0.569431663f,0.580831587f,0.58719188f,0.593552232f,0.599912524f,0.606272876f,0.612633228f,0.618993521f,0.625353873f,0.631714225f,0.638074517f,0.644434869f,0.647475183f,0.650515497f,0.65355581f,0.656596184f,0.659636497f,0.662676811f,0.665717125f,0.668757439f,0.671797752f,0.674838126f,0.676371872f,0.67790556f,0.679439306f,0.680973053f,0.6825068f,0.684040546f,0.685574293f,0.68710804f,0.688641787f,0.690175533f,0.690982401f,0.691789329f,0.692596197f,0.693403125f,0.694209993f,0.695016921f,0.695823789f,0.696630716f,0.697437584f,0.698244512f,0.699011743f,0.699778974f,0.700546205f,0.701313436f,0.702080667f,0.702847898f,0.703615189f,0.70438242f,0.705149651f,0.705916882f,0.706820607f,0.707724392f,0.708628118f,0.709531903f,0.710435629f,0.711339414f,0.71224314f,0.713146925f,0.71405071f,0.714954436f,0.715829313f,0.71670413f,0.717578948f,0.718453825f,0.719328642f,0.720203519f,0.721078336f,0.721953154f,0.722828031f,0.723702848f,0.724343002f,0.724983156f,0.72562331f,0.726263463f,0.726903617f,0.727543771f,0.728183866f,0.728824019f,0.729464173f,0.730104327f,0.730465293f,0.730826259f,0.731187224f,0.73154819f,0.731909156f,0.732270122f,0.732631087f,0.732992053f,0.733353019f,0.733713984f,0.734183311f,0.734652638f,0.735121965f,0.735591233f,0.73606056f,0.736529887f,0.736999154f,0.737468481f,0.737937808f,0.738407075f,0.664566398f,0.59072566f,0.516884983f,0.443044245f,0.369203538f,0.29536283f,0.221522123f,0.147681415f,0.0738407075f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth24[400] = {0.0579847135f,0.0576280504f,0.0572713874f,0.0569147244f,0.0565580614f,0.0562013984f,0.0558447354f,0.0554880723f,0.0551314093f,0.0547747463f,0.0544180833f,0.0541924126f,0.053966742f,0.0537410714f,0.0535154045f,0.0532897338f,0.0530640632f,0.0528383926f,0.0526127256f,0.052387055f,0.0521613844f,0.0521437004f,0.0521260127f,0.0521083251f,0.0520906374f,0.0520729534f,0.0520552658f,0.0520375818f,0.0520198941f,0.0520022064f,0.0519845188f,0.0520485751f,0.0521126315f,0.0521766879f,0.0522407442f,0.0523048006f,0.052368857f,0.0524329133f,0.0524969697f,0.0525610261f,0.0526250824f,0.0527609326f,0.052896779f,0.0530326255f,0.0531684756f,0.0533043221f,0.0534401685f,0.0535760187f,0.0537118651f,0.0538477153f,0.0539835617f,0.0541929305f,0.054402303f,0.0546116754f,0.0548210442f,0.0550304167f,0.0552397855f,0.0554491542f,0.0556585267f,0.0558678992f,0.056077268f,0.056411799f,0.0567463301f,0.0570808612f,0.0574153922f,0.0577499233f,0.0580844544f,0.0584189855f,0.0587535165f,0.0590880476f,0.0594225787f,0.0601392016f,0.0608558245f,0.0615724474f,0.0622890703f,0.0630056933f,0.0637223125f,0.0644389391f,0.0651555583f,0.0658721849f,0.0665888041f,0.067997992f,0.06940718f,0.0708163753f,0.0722255632f,0.0736347511f,0.0750439391f,0.076453127f,0.0778623149f,0.0792715028f,0.0806806907f,0.0833010152f,0.0859213397f,0.0885416642f,0.0911619887f,0.0937823057f,0.0964026302f,0.0990229547f,0.101643279f,0.104263596f,0.106883921f,0.11139971f,0.115915507f,0.120431297f,0.124947086f,0.129462883f,0.133978665f,0.138494462f,0.143010244f,0.147526041f,0.152041838f,0.159344926f,0.166648015f,0.173951104f,0.181254193f,0.188557297f,0.195860386f,0.203163475f,0.210466564f,0.217769653f,0.225072756f,0.23611854f,0.247164324f,0.258210123f,0.269255906f,0.28030169f,0.291347474f,0.302393258f,0.313439071f,0.324484855f,0.335530639f,0.348216832f,0.360902995f,0.373589188f,0.386275381f,0.398961574f,0.411647767f,0.42433396f,0.437020123f,0.449706316f,0.462392509f,0.472026527f,0.481660515f,0.491294533f,0.500928521f,0.510562539f,0.520196557f,0.529830515f,0.539464533f,0.549098551f,0.558732569f,0.564431965f,0.570131421f,0.575830817f,0.581530273f,0.587229669f,0.592929125f,0.598628521f,0.604327977f,0.610027373f,0.615726829f,0.619126618f,0.622526467f,0.625926256f,0.629326105f,0.632725954f,0.636125743f,0.639525592f,0.642925382f,0.646325231f,0.64972508f,0.651974499f,0.654223919f,0.656473339f,0.658722699f,0.660972118f,0.663221538f,0.665470958f,0.667720377f,0.669969797f,0.672219217f,0.674384117f,0.676549017f,0.678713918f,0.680878818f,0.683043718f,0.685208619f,0.687373519f,0.689538419f,0.69170332f,0.693868279f,0.695476592f,0.697084963f,0.698693335f,0.700301707f,0.701910079f,0.70351845f,0.705126822f,0.706735194f,0.708343565f,0.709951937f,0.711275697f,0.712599516f,0.713923275f,0.715247095f,0.716570854f,0.717894673f,0.719218433f,0.720542252f,0.721866012f,0.723189831f,0.724014342f,0.724838912f,0.725663424f,0.726487935f,0.727312446f,0.728136957f,0.728961527f,0.729786038f,0.730610549f,0.731435061f,0.732195675f,0.73295635f,0.733716965f,0.73447758f,0.735238194f,0.735998809f,0.736759424f,0.737520039f,0.738280654f,0.739041269f,0.73975718f,0.740473032f,0.741188943f,0.741904855f,0.742620707f,0.743336618f,0.74405247f,0.744768381f,0.745484293f,0.746200144f,0.746760488f,0.74732089f,0.747881234f,0.748441637f,0.74900198f,0.749562323f,0.750122726f,0.750683069f,0.751243472f,0.751803815f,0.75243926f,0.753074765f,0.75371021f,0.754345715f,0.75498116f,0.755616605f,0.75625211f,0.756887555f,0.75752306f,0.758158505f,0.75873673f,0.759314954f,0.759893239f,0.760471463f,0.761049688f,0.761627913f,0.762206137f,0.762784421f,0.763362646f,0.763940871f,0.764415681f,0.764890492f,0.765365303f,0.765840173f,0.766314983f,0.766789794f,0.767264605f,0.767739415f,0.768214285f,0.768689096f,0.768918335f,0.769147635f,0.769376934f,0.769606173f,0.769835472f,0.770064712f,0.770294011f,0.77052325f,0.770752549f,0.770981848f,0.771434486f,0.771887124f,0.772339821f,0.772792459f,0.773245096f,0.773697793f,0.774150431f,0.774603128f,0.775055766f,0.775508404f,0.776197791f,0.776887178f,0.777576506f,0.778265893f,0.778955281f,0.779644608f,0.780333996f,0.781023324f,0.781712711f,0.782402098f,0.783179581f,0.783957064f,0.784734547f,0.78551203f,0.786289513f,0.787067056f,0.787844539f,0.788622022f,0.789399505f,0.790176988f,0.790778279f,0.791379571f,0.791980803f,0.792582095f,0.793183386f,0.793784678f,0.79438597f,0.794987202f,0.795588493f,0.796189785f,0.796500444f,0.796811044f,0.797121704f,0.797432363f,0.797742963f,0.798053622f,0.798364282f,0.798674941f,0.798985541f,0.7992962f,0.799732685f,0.80016917f,0.800605655f,0.80104208f,0.801478565f,0.80191505f,0.802351534f,0.80278796f,0.803224444f,0.803660929f,0.723294854f,0.64292872f,0.562562644f,0.482196569f,0.401830465f,0.32146436f,0.241098285f,0.16073218f,0.0803660899f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth25[400] = {0.144547299f,0.149603993f,0.154660702f,0.159717396f,0.164774105f,0.169830814f,0.174887508f,0.179944217f,0.185000911f,0.19005762f,0.195114329f,0.203862205f,0.212610096f,0.221357986f,0.230105862f,0.238853753f,0.247601628f,0.256349534f,0.265097409f,0.273845285f,0.282593161f,0.288910747f,0.295228302f,0.301545858f,0.307863414f,0.31418097f,0.320498526f,0.326816082f,0.333133668f,0.339451224f,0.34576878f,0.34737429f,0.348979831f,0.350585371f,0.352190882f,0.353796422f,0.355401963f,0.357007474f,0.358613014f,0.360218525f,0.361824065f,0.361074001f,0.360323936f,0.359573841f,0.358823776f,0.358073711f,0.357323647f,0.356573582f,0.355823487f,0.355073422f,0.354323357f,0.352252066f,0.350180775f,0.348109484f,0.346038193f,0.343966901f,0.34189561f,0.339824319f,0.337752998f,0.335681707f,0.333610415f,0.330820411f,0.328030378f,0.325240374f,0.32245034f,0.319660336f,0.316870302f,0.314080268f,0.311290264f,0.30850023f,0.305710226f,0.302761853f,0.299813509f,0.296865165f,0.293916792f,0.290968448f,0.288020074f,0.285071731f,0.282123387f,0.279175013f,0.27622667f,0.273359627f,0.270492554f,0.267625511f,0.264758468f,0.261891425f,0.259024352f,0.256157309f,0.253290266f,0.250423223f,0.247556165f,0.244605824f,0.241655499f,0.238705173f,0.235754833f,0.232804507f,0.229854181f,0.226903841f,0.223953515f,0.22100319f,0.218052864f,0.21523574f,0.212418631f,0.209601521f,0.206784412f,0.203967288f,0.201150179f,0.19833307f,0.195515946f,0.192698836f,0.189881727f,0.187679395f,0.185477063f,0.183274731f,0.181072399f,0.178870067f,0.176667735f,0.174465403f,0.172263071f,0.170060739f,0.167858407f,0.165968075f,0.164077744f,0.162187412f,0.160297081f,0.158406749f,0.156516418f,0.154626086f,0.152735755f,0.150845423f,0.148955077f,0.146756604f,0.144558132f,0.142359659f,0.140161186f,0.137962714f,0.135764241f,0.133565769f,0.131367296f,0.129168823f,0.126970336f,0.12499661f,0.123022877f,0.121049143f,0.119075418f,0.117101684f,0.115127951f,0.113154218f,0.111180484f,0.109206758f,0.107233025f,0.106471285f,0.105709553f,0.104947813f,0.104186073f,0.10342434f,0.102662601f,0.101900861f,0.101139128f,0.100377388f,0.0996156484f,0.0998429433f,0.100070238f,0.100297533f,0.100524828f,0.100752123f,0.100979418f,0.101206712f,0.101434f,0.101661295f,0.10188859f,0.102055773f,0.102222957f,0.10239014f,0.102557316f,0.1027245f,0.102891684f,0.10305886f,0.103226043f,0.103393227f,0.10356041f,0.104111031f,0.104661658f,0.105212279f,0.105762899f,0.106313527f,0.106864147f,0.107414775f,0.107965395f,0.108516015f,0.109066643f,0.111840285f,0.114613935f,0.117387585f,0.120161228f,0.122934878f,0.12570852f,0.128482163f,0.13125582f,0.134029463f,0.136803105f,0.14308545f,0.149367794f,0.155650139f,0.161932468f,0.168214813f,0.174497157f,0.180779502f,0.187061846f,0.193344176f,0.19962652f,0.208676681f,0.217726827f,0.226776972f,0.235827118f,0.244877279f,0.253927439f,0.26297757f,0.272027731f,0.281077862f,0.290128022f,0.301121205f,0.312114388f,0.32310757f,0.334100723f,0.345093906f,0.356087089f,0.367080271f,0.378073454f,0.389066637f,0.400059819f,0.41163367f,0.423207521f,0.434781343f,0.446355194f,0.457929045f,0.469502896f,0.481076747f,0.492650598f,0.504224479f,0.515798271f,0.525704622f,0.535610974f,0.545517325f,0.555423677f,0.565330029f,0.57523638f,0.585142672f,0.595049024f,0.604955375f,0.614861727f,0.622030795f,0.629199862f,0.63636893f,0.643538058f,0.650707126f,0.657876194f,0.665045261f,0.672214329f,0.679383457f,0.686552525f,0.691074193f,0.69559586f,0.700117469f,0.704639137f,0.709160805f,0.713682473f,0.718204141f,0.722725809f,0.727247477f,0.731769145f,0.734567106f,0.737365127f,0.740163088f,0.742961109f,0.74575913f,0.748557091f,0.751355112f,0.754153073f,0.756951094f,0.759749055f,0.761206925f,0.762664735f,0.764122605f,0.765580416f,0.767038286f,0.768496096f,0.769953966f,0.771411777f,0.772869647f,0.774327457f,0.775209129f,0.776090801f,0.776972532f,0.777854204f,0.778735876f,0.779617548f,0.78049922f,0.781380892f,0.782262564f,0.783144236f,0.784085751f,0.785027325f,0.78596884f,0.786910415f,0.78785193f,0.788793445f,0.789735019f,0.790676534f,0.791618049f,0.792559624f,0.793640912f,0.794722259f,0.795803547f,0.796884835f,0.797966182f,0.79904747f,0.800128758f,0.801210105f,0.802291393f,0.803372681f,0.804190636f,0.805008531f,0.805826485f,0.80664444f,0.807462335f,0.808280289f,0.809098184f,0.809916139f,0.810734034f,0.811551988f,0.812114954f,0.812677979f,0.813240945f,0.813803971f,0.814366937f,0.814929962f,0.815492928f,0.816055954f,0.816618919f,0.817181945f,0.818004727f,0.81882745f,0.819650233f,0.820472956f,0.821295738f,0.822118461f,0.822941244f,0.823763967f,0.824586749f,0.825409472f,0.742868543f,0.660327613f,0.577786624f,0.495245695f,0.412704736f,0.330163807f,0.247622848f,0.165081903f,0.0825409517f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth26[400] = {0.107731417f,0.111077026f,0.114422627f,0.117768236f,0.121113837f,0.124459445f,0.127805054f,0.131150648f,0.134496257f,0.137841865f,0.141187474f,0.14631553f,0.151443601f,0.156571671f,0.161699742f,0.166827798f,0.171955869f,0.177083939f,0.18221201f,0.187340081f,0.192468137f,0.196862593f,0.201257035f,0.205651477f,0.210045934f,0.214440376f,0.218834832f,0.223229274f,0.227623716f,0.232018173f,0.236412615f,0.238856748f,0.241300866f,0.243744999f,0.246189132f,0.248633251f,0.251077384f,0.253521502f,0.25596565f,0.258409768f,0.260853887f,0.263318717f,0.265783519f,0.26824832f,0.270713151f,0.273177952f,0.275642753f,0.278107584f,0.280572385f,0.283037186f,0.285502017f,0.288691491f,0.291880995f,0.295070469f,0.298259974f,0.301449478f,0.304638952f,0.307828456f,0.311017931f,0.314207435f,0.317396939f,0.320970595f,0.324544281f,0.328117937f,0.331691623f,0.335265279f,0.338838965f,0.342412621f,0.345986307f,0.349559993f,0.353133649f,0.356843829f,0.36055398f,0.36426416f,0.367974311f,0.371684492f,0.375394642f,0.379104823f,0.382814974f,0.386525154f,0.390235305f,0.393808424f,0.397381544f,0.400954664f,0.404527783f,0.408100903f,0.411674023f,0.415247142f,0.418820262f,0.422393382f,0.425966501f,0.427930504f,0.429894537f,0.431858569f,0.433822602f,0.435786635f,0.437750638f,0.43971467f,0.441678703f,0.443642735f,0.445606768f,0.445469141f,0.445331514f,0.445193887f,0.44505626f,0.444918633f,0.444781005f,0.444643378f,0.444505751f,0.444368124f,0.444230497f,0.442128837f,0.440027148f,0.437925458f,0.435823768f,0.433722079f,0.431620389f,0.4295187f,0.42741701f,0.42531535f,0.423213661f,0.419441044f,0.415668428f,0.411895812f,0.408123225f,0.404350609f,0.400577992f,0.396805406f,0.393032789f,0.389260173f,0.385487556f,0.380610704f,0.375733882f,0.37085703f,0.365980178f,0.361103326f,0.356226474f,0.351349622f,0.34647277f,0.341595918f,0.336719066f,0.331320256f,0.325921476f,0.320522666f,0.315123856f,0.309725046f,0.304326236f,0.298927426f,0.293528616f,0.288129807f,0.282730997f,0.277586162f,0.272441298f,0.267296463f,0.262151599f,0.257006735f,0.2518619f,0.246717036f,0.241572186f,0.236427337f,0.231282488f,0.226659775f,0.222037062f,0.217414349f,0.212791637f,0.208168924f,0.203546211f,0.198923498f,0.194300786f,0.189678073f,0.18505536f,0.181103796f,0.177152246f,0.173200697f,0.169249132f,0.165297583f,0.161346033f,0.157394469f,0.153442919f,0.14949137f,0.145539805f,0.142792583f,0.14004536f,0.137298137f,0.134550899f,0.131803676f,0.129056454f,0.126309231f,0.123562001f,0.120814778f,0.118067548f,0.116313405f,0.114559263f,0.112805121f,0.111050978f,0.109296836f,0.107542694f,0.105788551f,0.104034409f,0.102280267f,0.100526117f,0.0994317457f,0.0983373746f,0.097243011f,0.0961486399f,0.0950542688f,0.0939598978f,0.0928655267f,0.0917711556f,0.0906767845f,0.0895824134f,0.0887800455f,0.087977685f,0.0871753246f,0.0863729566f,0.0855705962f,0.0847682357f,0.0839658678f,0.0831635073f,0.0823611468f,0.0815587789f,0.0810425207f,0.0805262625f,0.0800099969f,0.0794937387f,0.0789774731f,0.0784612149f,0.0779449493f,0.0774286911f,0.0769124255f,0.0763961673f,0.0761624575f,0.0759287402f,0.0756950304f,0.0754613206f,0.0752276033f,0.0749938935f,0.0747601762f,0.0745264664f,0.0742927566f,0.0740590394f,0.0739584491f,0.0738578588f,0.0737572685f,0.0736566782f,0.0735560879f,0.0734554976f,0.0733548999f,0.0732543096f,0.0731537193f,0.073053129f,0.0730421916f,0.0730312616f,0.0730203316f,0.0730093941f,0.0729984641f,0.0729875267f,0.0729765967f,0.0729656592f,0.0729547292f,0.0729437917f,0.0730302855f,0.0731167793f,0.0732032731f,0.0732897669f,0.0733762607f,0.0734627545f,0.0735492408f,0.0736357346f,0.0737222284f,0.0738087222f,0.0739867538f,0.0741647854f,0.0743428171f,0.0745208487f,0.0746988803f,0.0748769119f,0.0750549436f,0.0752329677f,0.0754109994f,0.075589031f,0.0757051706f,0.0758213103f,0.0759374499f,0.0760535896f,0.0761697292f,0.0762858689f,0.0764020085f,0.0765181482f,0.0766342804f,0.07675042f,0.0767232403f,0.0766960606f,0.0766688734f,0.0766416937f,0.0766145065f,0.0765873268f,0.0765601397f,0.0765329599f,0.0765057728f,0.0764785931f,0.0763298944f,0.0761811882f,0.0760324895f,0.0758837909f,0.0757350847f,0.075586386f,0.0754376873f,0.0752889812f,0.0751402825f,0.0749915838f,0.0747693777f,0.074547179f,0.0743249729f,0.0741027743f,0.0738805681f,0.0736583695f,0.0734361634f,0.0732139647f,0.0729917586f,0.0727695599f,0.0726924688f,0.0726153702f,0.072538279f,0.0724611878f,0.0723840967f,0.0723070055f,0.0722299069f,0.0721528158f,0.0720757246f,0.0719986334f,0.0721732676f,0.0723478943f,0.0725225285f,0.0726971626f,0.0728717968f,0.0730464309f,0.0732210651f,0.0733956918f,0.073570326f,0.0737449601f,0.0743059516f,0.0748669505f,0.075427942f,0.0759889409f,0.0765499324f,0.0771109313f,0.0776719227f,0.0782329142f,0.0787939131f,0.0793549046f,0.0714194179f,0.0634839237f,0.0555484332f,0.0476129428f,0.0396774523f,0.0317419618f,0.0238064714f,0.0158709809f,0.00793549139f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth31[400] = {0.189362213f,0.195889905f,0.202417597f,0.208945274f,0.215472966f,0.222000659f,0.228528336f,0.235056028f,0.24158372f,0.248111397f,0.254639089f,0.271435499f,0.288231909f,0.305028319f,0.321824729f,0.33862114f,0.35541755f,0.37221396f,0.38901037f,0.40580678f,0.42260319f,0.446363807f,0.470124424f,0.49388501f,0.517645657f,0.541406214f,0.565166831f,0.588927448f,0.612688065f,0.636448681f,0.660209298f,0.675285876f,0.690362513f,0.705439091f,0.720515728f,0.735592306f,0.750668883f,0.765745521f,0.780822098f,0.795898736f,0.810975313f,0.816089571f,0.821203828f,0.826318085f,0.831432343f,0.8365466f,0.841660857f,0.846775115f,0.851889312f,0.85700357f,0.862117827f,0.863563657f,0.865009427f,0.866455197f,0.867900968f,0.869346797f,0.870792568f,0.872238338f,0.873684168f,0.875129938f,0.876575708f,0.877335489f,0.878095269f,0.878855109f,0.87961489f,0.88037467f,0.88113445f,0.881894231f,0.882654011f,0.883413851f,0.884173632f,0.88485986f,0.885546029f,0.886232257f,0.886918485f,0.887604713f,0.888290882f,0.88897711f,0.889663339f,0.890349567f,0.891035795f,0.891498625f,0.891961396f,0.892424226f,0.892887056f,0.893349886f,0.893812716f,0.894275546f,0.894738376f,0.895201206f,0.895664036f,0.896029294f,0.896394551f,0.896759748f,0.897125006f,0.897490203f,0.897855461f,0.898220718f,0.898585916f,0.898951173f,0.89931643f,0.899754405f,0.90019238f,0.900630355f,0.901068389f,0.901506364f,0.901944339f,0.902382314f,0.902820349f,0.903258324f,0.903696299f,0.904045045f,0.904393792f,0.904742539f,0.905091226f,0.905439973f,0.90578872f,0.906137466f,0.906486213f,0.9068349f,0.907183647f,0.907373726f,0.907563806f,0.907753885f,0.907943964f,0.908134043f,0.908324122f,0.908514202f,0.908704281f,0.90889436f,0.909084439f,0.909267128f,0.909449756f,0.909632444f,0.909815073f,0.909997761f,0.91018039f,0.910363078f,0.910545707f,0.910728395f,0.910911024f,0.910825253f,0.910739422f,0.910653591f,0.91056776f,0.91048193f,0.910396099f,0.910310268f,0.910224438f,0.910138607f,0.910052776f,0.910169065f,0.910285294f,0.910401523f,0.910517812f,0.910634041f,0.91075027f,0.910866559f,0.910982788f,0.911099017f,0.911215305f,0.911495745f,0.911776125f,0.912056565f,0.912337005f,0.912617445f,0.912897885f,0.913178325f,0.913458765f,0.913739204f,0.914019644f,0.913960278f,0.913900971f,0.913841665f,0.913782358f,0.913722992f,0.913663685f,0.913604379f,0.913545072f,0.913485706f,0.913426399f,0.91368562f,0.91394484f,0.914204121f,0.914463341f,0.914722562f,0.914981782f,0.915241003f,0.915500283f,0.915759504f,0.916018724f,0.915964842f,0.915910959f,0.915857136f,0.915803254f,0.915749371f,0.915695488f,0.915641606f,0.915587783f,0.9155339f,0.915480018f,0.915516198f,0.915552318f,0.915588498f,0.915624619f,0.915660739f,0.915696919f,0.915733039f,0.915769219f,0.91580534f,0.91584152f,0.915690839f,0.915540099f,0.915389419f,0.915238738f,0.915087998f,0.914937317f,0.914786637f,0.914635897f,0.914485216f,0.914334536f,0.914447784f,0.914561033f,0.914674342f,0.914787591f,0.914900839f,0.915014088f,0.915127337f,0.915240645f,0.915353894f,0.915467143f,0.915684104f,0.915901065f,0.916117966f,0.916334927f,0.916551888f,0.916768849f,0.91698575f,0.917202711f,0.917419672f,0.917636573f,0.917735636f,0.91783464f,0.917933643f,0.918032646f,0.918131649f,0.918230653f,0.918329656f,0.918428659f,0.918527663f,0.918626666f,0.918865442f,0.919104159f,0.919342935f,0.919581652f,0.919820368f,0.920059144f,0.920297861f,0.920536637f,0.920775354f,0.921014071f,0.921203673f,0.921393216f,0.921582818f,0.921772361f,0.921961963f,0.922151506f,0.922341108f,0.922530651f,0.922720194f,0.922909796f,0.923004329f,0.923098922f,0.923193455f,0.923288047f,0.92338258f,0.923477173f,0.923571706f,0.923666298f,0.923760831f,0.923855424f,0.923668742f,0.92348206f,0.923295319f,0.923108637f,0.922921956f,0.922735274f,0.922548592f,0.92236191f,0.922175229f,0.921988487f,0.922031701f,0.922074854f,0.922118068f,0.922161222f,0.922204435f,0.922247589f,0.922290742f,0.922333956f,0.92237711f,0.922420323f,0.922655404f,0.922890484f,0.923125505f,0.923360586f,0.923595667f,0.923830748f,0.924065828f,0.924300909f,0.92453599f,0.92477107f,0.925042629f,0.925314188f,0.925585806f,0.925857365f,0.926128924f,0.926400542f,0.926672101f,0.92694366f,0.927215278f,0.927486837f,0.927715242f,0.927943647f,0.928172052f,0.928400457f,0.928628862f,0.928857267f,0.929085672f,0.929314077f,0.929542482f,0.929770887f,0.929834962f,0.929899037f,0.929963112f,0.930027187f,0.930091262f,0.930155337f,0.930219352f,0.930283427f,0.930347502f,0.930411577f,0.930699348f,0.93098712f,0.931274891f,0.931562662f,0.931850433f,0.932138205f,0.932425976f,0.932713747f,0.933001518f,0.933289289f,0.839960396f,0.746631444f,0.653302491f,0.559973598f,0.466644645f,0.373315722f,0.279986799f,0.186657861f,0.0933289304f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth32[400] = {0.170848757f,0.176969722f,0.183090687f,0.189211652f,0.195332617f,0.201453581f,0.207574546f,0.213695511f,0.219816476f,0.225937441f,0.232058406f,0.245359242f,0.258660078f,0.271960914f,0.28526175f,0.298562586f,0.311863422f,0.325164258f,0.338465095f,0.351765931f,0.365066767f,0.379215747f,0.393364757f,0.407513738f,0.421662748f,0.435811728f,0.449960738f,0.464109749f,0.478258729f,0.492407739f,0.506556749f,0.512649775f,0.518742859f,0.524835944f,0.530929029f,0.537022054f,0.543115139f,0.549208224f,0.555301249f,0.561394334f,0.567487419f,0.569008231f,0.570529044f,0.572049856f,0.573570669f,0.575091481f,0.576612294f,0.578133106f,0.579653978f,0.581174791f,0.582695603f,0.583196104f,0.583696663f,0.584197223f,0.584697783f,0.585198343f,0.585698843f,0.586199403f,0.586699963f,0.587200522f,0.587701023f,0.587940097f,0.588179171f,0.588418245f,0.58865732f,0.588896394f,0.589135468f,0.589374542f,0.589613616f,0.589852691f,0.590091765f,0.590181828f,0.590271831f,0.590361893f,0.590451896f,0.590541899f,0.590631962f,0.590721965f,0.590811968f,0.59090203f,0.590992033f,0.590869963f,0.590747833f,0.590625763f,0.590503693f,0.590381622f,0.590259492f,0.590137422f,0.590015352f,0.589893281f,0.589771152f,0.589634717f,0.589498222f,0.589361787f,0.589225292f,0.589088857f,0.588952363f,0.588815928f,0.588679433f,0.588542998f,0.588406503f,0.588408411f,0.588410258f,0.588412166f,0.588414073f,0.588415921f,0.588417828f,0.588419735f,0.588421583f,0.588423491f,0.588425398f,0.588480711f,0.588536084f,0.588591456f,0.588646829f,0.588702142f,0.588757515f,0.588812888f,0.58886826f,0.588923633f,0.588978946f,0.589029431f,0.589079976f,0.589130461f,0.589180946f,0.589231431f,0.589281917f,0.589332402f,0.589382887f,0.589433372f,0.589483857f,0.589594603f,0.589705288f,0.589815974f,0.58992672f,0.590037405f,0.590148091f,0.590258837f,0.590369523f,0.590480208f,0.590590894f,0.590533674f,0.590476453f,0.590419233f,0.590361953f,0.590304732f,0.590247512f,0.590190232f,0.590133011f,0.590075791f,0.59001857f,0.590006411f,0.589994252f,0.589982092f,0.589969933f,0.589957774f,0.589945614f,0.589933455f,0.589921296f,0.589909196f,0.589897037f,0.589937568f,0.589978039f,0.59001857f,0.590059102f,0.590099633f,0.590140164f,0.590180695f,0.590221226f,0.590261698f,0.590302229f,0.590201259f,0.590100288f,0.589999259f,0.589898288f,0.589797258f,0.589696288f,0.589595318f,0.589494288f,0.589393318f,0.589292347f,0.589457393f,0.589622498f,0.589787602f,0.589952707f,0.590117812f,0.590282917f,0.590447962f,0.590613067f,0.590778172f,0.590943277f,0.590879738f,0.590816259f,0.590752721f,0.590689242f,0.590625703f,0.590562165f,0.590498686f,0.590435147f,0.590371668f,0.59030813f,0.590248644f,0.590189219f,0.590129733f,0.590070248f,0.590010762f,0.589951336f,0.589891851f,0.589832366f,0.58977294f,0.589713454f,0.589455247f,0.589197099f,0.588938892f,0.588680685f,0.588422537f,0.58816433f,0.587906182f,0.587647974f,0.587389767f,0.587131619f,0.586933196f,0.586734831f,0.586536467f,0.586338043f,0.586139679f,0.585941315f,0.585742891f,0.585544527f,0.585346162f,0.585147738f,0.584937096f,0.584726393f,0.58451575f,0.584305048f,0.584094405f,0.583883703f,0.58367306f,0.583462358f,0.583251715f,0.583041012f,0.582733154f,0.582425237f,0.582117319f,0.581809461f,0.581501544f,0.581193686f,0.580885768f,0.58057785f,0.580269992f,0.579962075f,0.579744816f,0.579527557f,0.579310298f,0.579093039f,0.57887578f,0.578658521f,0.578441262f,0.578224003f,0.578006744f,0.577789485f,0.577605307f,0.577421188f,0.57723707f,0.577052891f,0.576868773f,0.576684654f,0.576500475f,0.576316357f,0.576132178f,0.57594806f,0.575793147f,0.575638235f,0.575483382f,0.575328469f,0.575173557f,0.575018644f,0.574863732f,0.574708819f,0.574553967f,0.574399054f,0.574180186f,0.573961318f,0.573742449f,0.573523581f,0.573304713f,0.573085845f,0.572866976f,0.572648108f,0.57242924f,0.572210371f,0.572050571f,0.571890712f,0.571730852f,0.571570992f,0.571411133f,0.571251273f,0.571091473f,0.570931613f,0.570771754f,0.570611894f,0.570473135f,0.570334315f,0.570195556f,0.570056736f,0.569917977f,0.569779158f,0.569640398f,0.569501579f,0.569362819f,0.569224f,0.569129288f,0.569034576f,0.568939805f,0.568845093f,0.568750322f,0.56865561f,0.568560839f,0.568466127f,0.568371415f,0.568276644f,0.568245947f,0.568215191f,0.568184435f,0.568153739f,0.568122983f,0.568092287f,0.568061531f,0.568030775f,0.568000078f,0.567969322f,0.567820549f,0.567671776f,0.567523003f,0.567374229f,0.567225397f,0.567076623f,0.56692785f,0.566779077f,0.566630304f,0.566481531f,0.566464245f,0.56644702f,0.566429794f,0.566412508f,0.566395283f,0.566378057f,0.566360831f,0.566343546f,0.56632632f,0.566309094f,0.509678185f,0.453047246f,0.396416366f,0.339785457f,0.283154547f,0.226523623f,0.169892728f,0.113261811f,0.0566309094f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth33[400] = {0.144208193f,0.149032891f,0.153857589f,0.158682272f,0.16350697f,0.168331653f,0.173156351f,0.177981049f,0.182805732f,0.18763043f,0.192455113f,0.200393587f,0.208332062f,0.216270536f,0.224209011f,0.232147485f,0.240085959f,0.248024434f,0.255962908f,0.263901383f,0.271839857f,0.27773726f,0.283634633f,0.289532036f,0.295429438f,0.301326811f,0.307224214f,0.313121587f,0.31901899f,0.324916393f,0.330813766f,0.332774341f,0.334734917f,0.336695492f,0.338656068f,0.340616643f,0.342577219f,0.344537795f,0.34649837f,0.348458946f,0.350419521f,0.35106945f,0.35171935f,0.352369249f,0.353019178f,0.353669077f,0.354319006f,0.354968905f,0.355618805f,0.356268734f,0.356918633f,0.357349932f,0.357781202f,0.358212471f,0.35864374f,0.35907501f,0.359506309f,0.359937578f,0.360368848f,0.360800117f,0.361231387f,0.36143443f,0.361637473f,0.361840516f,0.36204356f,0.362246603f,0.362449616f,0.362652659f,0.362855703f,0.363058746f,0.363261789f,0.363232583f,0.363203377f,0.36317417f,0.363144994f,0.363115788f,0.363086581f,0.363057375f,0.363028169f,0.362998962f,0.362969786f,0.362753808f,0.362537831f,0.362321854f,0.362105876f,0.361889899f,0.361673921f,0.361457944f,0.361241966f,0.361025989f,0.360810012f,0.360602617f,0.360395223f,0.360187829f,0.359980434f,0.35977304f,0.359565645f,0.359358251f,0.359150857f,0.358943462f,0.358736068f,0.358673275f,0.358610481f,0.358547688f,0.358484894f,0.358422071f,0.358359277f,0.358296484f,0.35823369f,0.358170897f,0.358108103f,0.358142823f,0.358177543f,0.358212262f,0.358246982f,0.358281702f,0.358316422f,0.358351141f,0.358385861f,0.358420581f,0.3584553f,0.358528376f,0.358601421f,0.358674496f,0.358747572f,0.358820647f,0.358893722f,0.358966798f,0.359039873f,0.359112948f,0.359185994f,0.3593086f,0.359431207f,0.359553784f,0.359676391f,0.359798998f,0.359921575f,0.360044181f,0.360166788f,0.360289365f,0.360411972f,0.360416353f,0.360420734f,0.360425115f,0.360429496f,0.360433906f,0.360438287f,0.360442668f,0.360447049f,0.36045143f,0.360455811f,0.360466272f,0.360476702f,0.360487133f,0.360497594f,0.360508025f,0.360518456f,0.360528916f,0.360539347f,0.360549808f,0.360560238f,0.36058715f,0.360614061f,0.360640973f,0.360667884f,0.360694796f,0.360721707f,0.360748619f,0.36077553f,0.360802442f,0.360829353f,0.360789031f,0.360748738f,0.360708416f,0.360668123f,0.3606278f,0.360587507f,0.360547185f,0.360506862f,0.36046657f,0.360426247f,0.360568434f,0.360710651f,0.360852838f,0.360995024f,0.361137211f,0.361279398f,0.361421585f,0.361563772f,0.361705959f,0.361848146f,0.3618384f,0.361828655f,0.36181888f,0.361809134f,0.361799389f,0.361789644f,0.361779869f,0.361770123f,0.361760378f,0.361750603f,0.361708134f,0.361665666f,0.361623168f,0.3615807f,0.361538202f,0.361495733f,0.361453235f,0.361410767f,0.361368269f,0.3613258f,0.361125499f,0.360925198f,0.360724896f,0.360524595f,0.360324293f,0.360124022f,0.35992372f,0.359723419f,0.359523118f,0.359322816f,0.359143883f,0.35896498f,0.358786047f,0.358607113f,0.35842821f,0.358249277f,0.358070374f,0.35789144f,0.357712507f,0.357533604f,0.357323617f,0.357113659f,0.356903672f,0.356693715f,0.356483757f,0.35627377f,0.356063813f,0.355853826f,0.355643868f,0.355433911f,0.355132014f,0.354830116f,0.354528219f,0.354226351f,0.353924453f,0.353622556f,0.353320658f,0.353018761f,0.352716893f,0.352414995f,0.352163255f,0.351911485f,0.351659745f,0.351408005f,0.351156235f,0.350904495f,0.350652754f,0.350400984f,0.350149244f,0.349897504f,0.349671781f,0.349446058f,0.349220365f,0.348994642f,0.34876895f,0.348543227f,0.348317504f,0.348091811f,0.347866088f,0.347640395f,0.347423166f,0.347205937f,0.346988708f,0.346771479f,0.34655425f,0.34633702f,0.346119791f,0.345902562f,0.345685363f,0.345468134f,0.345193028f,0.344917953f,0.344642878f,0.344367802f,0.344092727f,0.343817621f,0.343542546f,0.343267471f,0.342992395f,0.34271732f,0.342462242f,0.342207193f,0.341952145f,0.341697097f,0.341442049f,0.34118697f,0.340931922f,0.340676874f,0.340421826f,0.340166777f,0.33991012f,0.339653492f,0.339396864f,0.339140207f,0.338883579f,0.338626951f,0.338370323f,0.338113666f,0.337857038f,0.33760041f,0.337371171f,0.337141931f,0.336912721f,0.336683482f,0.336454272f,0.336225033f,0.335995793f,0.335766584f,0.335537344f,0.335308135f,0.335160583f,0.335013062f,0.33486551f,0.334717989f,0.334570438f,0.334422916f,0.334275365f,0.334127843f,0.333980292f,0.333832771f,0.333629787f,0.333426833f,0.33322385f,0.333020896f,0.332817912f,0.332614958f,0.332411975f,0.332209021f,0.332006037f,0.331803083f,0.331677109f,0.331551164f,0.33142519f,0.331299216f,0.331173271f,0.331047297f,0.330921322f,0.330795377f,0.330669403f,0.330543429f,0.297489107f,0.264434755f,0.231380403f,0.198326066f,0.165271714f,0.132217377f,0.0991630331f,0.0661086887f,0.0330543444f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth34[400] = {0.105192125f,0.107805513f,0.110418908f,0.113032296f,0.115645692f,0.118259087f,0.120872483f,0.123485871f,0.126099259f,0.128712654f,0.13132605f,0.134453237f,0.137580425f,0.140707612f,0.1438348f,0.146961987f,0.150089175f,0.153216362f,0.156343564f,0.159470752f,0.162597939f,0.164354712f,0.166111484f,0.167868257f,0.169625029f,0.171381801f,0.173138589f,0.174895361f,0.176652133f,0.178408906f,0.180165678f,0.180740803f,0.181315914f,0.181891039f,0.182466149f,0.183041275f,0.183616385f,0.18419151f,0.18476662f,0.185341746f,0.185916856f,0.186278552f,0.186640248f,0.187001944f,0.187363654f,0.18772535f,0.188087046f,0.188448742f,0.188810438f,0.189172134f,0.18953383f,0.189866528f,0.190199226f,0.190531939f,0.190864637f,0.191197336f,0.191530034f,0.191862732f,0.19219543f,0.192528129f,0.192860827f,0.192997977f,0.193135127f,0.193272263f,0.193409413f,0.193546548f,0.193683699f,0.193820849f,0.193957984f,0.194095135f,0.19423227f,0.194187388f,0.194142491f,0.194097608f,0.194052711f,0.194007829f,0.193962932f,0.193918049f,0.193873152f,0.19382827f,0.193783373f,0.193637848f,0.193492323f,0.193346798f,0.193201274f,0.193055749f,0.192910224f,0.192764699f,0.192619175f,0.19247365f,0.19232811f,0.192201272f,0.192074433f,0.191947609f,0.191820756f,0.191693932f,0.191567093f,0.191440254f,0.191313416f,0.191186577f,0.191059738f,0.191038385f,0.191017047f,0.190995708f,0.190974355f,0.190953016f,0.190931663f,0.190910324f,0.190888986f,0.190867633f,0.190846294f,0.190886304f,0.190926298f,0.190966308f,0.191006318f,0.191046327f,0.191086337f,0.191126332f,0.191166341f,0.191206351f,0.191246361f,0.19127965f,0.191312954f,0.191346243f,0.191379547f,0.191412836f,0.19144614f,0.19147943f,0.191512734f,0.191546023f,0.191579327f,0.191626549f,0.191673756f,0.191720977f,0.191768199f,0.191815406f,0.191862628f,0.19190985f,0.191957071f,0.192004278f,0.1920515f,0.192056462f,0.192061439f,0.192066401f,0.192071378f,0.19207634f,0.192081317f,0.192086279f,0.192091256f,0.192096218f,0.192101195f,0.19210811f,0.192115024f,0.192121953f,0.192128867f,0.192135781f,0.19214271f,0.192149624f,0.192156538f,0.192163467f,0.192170382f,0.192184612f,0.192198843f,0.192213088f,0.192227319f,0.192241549f,0.19225578f,0.192270011f,0.192284241f,0.192298472f,0.192312703f,0.192287251f,0.1922618f,0.192236349f,0.192210898f,0.192185432f,0.192159981f,0.192134529f,0.192109078f,0.192083627f,0.192058161f,0.192115575f,0.192172974f,0.192230389f,0.192287788f,0.192345187f,0.192402601f,0.192460001f,0.1925174f,0.192574814f,0.192632213f,0.192607149f,0.192582071f,0.192557007f,0.192531928f,0.192506865f,0.192481786f,0.192456722f,0.192431644f,0.19240658f,0.192381501f,0.192336261f,0.192291021f,0.192245781f,0.192200541f,0.192155287f,0.192110047f,0.192064807f,0.192019567f,0.191974312f,0.191929072f,0.191795647f,0.191662207f,0.191528782f,0.191395342f,0.191261917f,0.191128477f,0.190995052f,0.190861613f,0.190728188f,0.190594748f,0.190473899f,0.190353036f,0.190232173f,0.190111324f,0.189990461f,0.189869612f,0.189748749f,0.189627901f,0.189507037f,0.189386189f,0.189246163f,0.189106151f,0.188966125f,0.188826114f,0.188686103f,0.188546076f,0.188406065f,0.188266039f,0.188126028f,0.187986001f,0.187774152f,0.187562287f,0.187350437f,0.187138572f,0.186926708f,0.186714858f,0.186502993f,0.186291128f,0.186079279f,0.185867414f,0.185678199f,0.185488984f,0.185299754f,0.185110539f,0.184921324f,0.184732094f,0.184542879f,0.18435365f,0.184164435f,0.18397522f,0.183809429f,0.183643654f,0.183477879f,0.183312088f,0.183146313f,0.182980523f,0.182814747f,0.182648957f,0.182483181f,0.182317406f,0.182170823f,0.18202424f,0.181877673f,0.18173109f,0.181584507f,0.181437939f,0.181291357f,0.181144774f,0.180998206f,0.180851623f,0.180691689f,0.180531755f,0.180371821f,0.180211887f,0.180051953f,0.179892018f,0.179732084f,0.17957215f,0.179412216f,0.179252282f,0.179104239f,0.178956196f,0.178808153f,0.17866011f,0.178512067f,0.178364024f,0.178215981f,0.178067937f,0.177919894f,0.177771851f,0.177599147f,0.177426443f,0.177253738f,0.177081019f,0.176908314f,0.17673561f,0.17656289f,0.176390186f,0.176217481f,0.176044762f,0.175874159f,0.17570357f,0.175532967f,0.175362363f,0.17519176f,0.175021157f,0.174850553f,0.17467995f,0.174509346f,0.174338743f,0.174241707f,0.174144655f,0.174047619f,0.173950568f,0.173853517f,0.17375648f,0.173659429f,0.173562378f,0.173465341f,0.17336829f,0.173250318f,0.173132345f,0.173014373f,0.1728964f,0.172778428f,0.172660455f,0.172542483f,0.17242451f,0.172306538f,0.172188565f,0.172108591f,0.172028616f,0.171948627f,0.171868652f,0.171788678f,0.171708703f,0.171628729f,0.171548754f,0.171468765f,0.17138879f,0.154249907f,0.137111038f,0.119972154f,0.102833278f,0.085694395f,0.068555519f,0.0514166392f,0.0342777595f,0.0171388797f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth35[400] = {0.0679599866f,0.0688362867f,0.0697125793f,0.0705888793f,0.0714651719f,0.0723414719f,0.0732177719f,0.0740940645f,0.0749703646f,0.0758466646f,0.0767229572f,0.0774388388f,0.0781547204f,0.078870602f,0.0795864835f,0.0803023651f,0.0810182467f,0.0817341283f,0.0824500099f,0.0831658915f,0.0838817805f,0.0842348561f,0.0845879316f,0.0849410146f,0.0852940902f,0.0856471732f,0.0860002488f,0.0863533318f,0.0867064074f,0.0870594829f,0.0874125659f,0.0875598043f,0.0877070352f,0.0878542736f,0.088001512f,0.0881487504f,0.0882959813f,0.0884432197f,0.088590458f,0.0887376964f,0.0888849273f,0.089040719f,0.0891965106f,0.0893523023f,0.0895080939f,0.0896638855f,0.0898196772f,0.0899754688f,0.0901312605f,0.0902870521f,0.0904428437f,0.0905851424f,0.0907274485f,0.0908697546f,0.0910120532f,0.0911543593f,0.0912966654f,0.091438964f,0.0915812701f,0.0917235687f,0.0918658748f,0.0918836668f,0.0919014588f,0.0919192433f,0.0919370353f,0.0919548273f,0.0919726193f,0.0919904113f,0.0920082033f,0.0920259878f,0.0920437798f,0.0919744894f,0.0919051915f,0.0918358937f,0.0917665958f,0.0916973054f,0.0916280076f,0.0915587097f,0.0914894119f,0.0914201215f,0.0913508236f,0.0912550092f,0.0911591947f,0.0910633802f,0.0909675658f,0.0908717513f,0.0907759294f,0.0906801149f,0.0905843005f,0.090488486f,0.0903926715f,0.0903281271f,0.0902635828f,0.0901990384f,0.0901344866f,0.0900699422f,0.0900053978f,0.0899408534f,0.089876309f,0.0898117647f,0.0897472203f,0.0897374526f,0.0897276923f,0.0897179246f,0.0897081643f,0.0896983966f,0.0896886364f,0.0896788687f,0.0896691084f,0.0896593407f,0.0896495804f,0.0896658525f,0.0896821246f,0.0896983966f,0.0897146687f,0.0897309408f,0.0897472128f,0.0897634923f,0.0897797644f,0.0897960365f,0.0898123085f,0.0898189917f,0.0898256674f,0.0898323432f,0.0898390263f,0.0898457021f,0.0898523852f,0.0898590609f,0.0898657441f,0.0898724198f,0.089879103f,0.0898881704f,0.0898972377f,0.0899062976f,0.089915365f,0.0899244323f,0.0899334997f,0.0899425671f,0.0899516344f,0.0899607018f,0.0899697691f,0.0899691358f,0.0899684951f,0.0899678618f,0.0899672285f,0.0899665952f,0.0899659544f,0.0899653211f,0.0899646878f,0.0899640545f,0.0899634212f,0.0899684504f,0.0899734795f,0.0899785087f,0.0899835452f,0.0899885744f,0.0899936035f,0.0899986327f,0.0900036693f,0.0900086984f,0.0900137275f,0.0900185555f,0.0900233909f,0.0900282189f,0.0900330544f,0.0900378823f,0.0900427103f,0.0900475457f,0.0900523737f,0.0900572017f,0.0900620371f,0.0900420398f,0.0900220424f,0.090002045f,0.0899820477f,0.0899620503f,0.089942053f,0.0899220556f,0.0899020582f,0.0898820609f,0.0898620635f,0.0898662359f,0.0898704082f,0.0898745805f,0.0898787528f,0.0898829252f,0.0898870975f,0.0898912698f,0.0898954347f,0.089899607f,0.0899037793f,0.0898646638f,0.0898255482f,0.0897864252f,0.0897473097f,0.0897081941f,0.0896690711f,0.0896299556f,0.0895908326f,0.089551717f,0.0895126015f,0.0894778296f,0.0894430652f,0.0894082934f,0.089373529f,0.0893387571f,0.0893039927f,0.0892692208f,0.0892344564f,0.0891996846f,0.0891649202f,0.0891005844f,0.0890362486f,0.0889719203f,0.0889075845f,0.0888432488f,0.088778913f,0.0887145773f,0.0886502415f,0.0885859132f,0.0885215774f,0.0884756893f,0.0884298012f,0.0883839205f,0.0883380324f,0.0882921517f,0.0882462636f,0.0882003754f,0.0881544873f,0.0881086066f,0.0880627185f,0.0880058333f,0.0879489481f,0.087892063f,0.0878351778f,0.0877782851f,0.0877214f,0.0876645148f,0.0876076296f,0.0875507444f,0.0874938592f,0.0873893648f,0.0872848779f,0.087180391f,0.087075904f,0.0869714096f,0.0868669227f,0.0867624357f,0.0866579488f,0.0865534544f,0.0864489675f,0.0863550752f,0.0862611756f,0.0861672834f,0.0860733911f,0.0859794915f,0.0858855993f,0.0857916996f,0.0856978074f,0.0856039152f,0.0855100155f,0.0854368359f,0.0853636563f,0.0852904692f,0.0852172896f,0.08514411f,0.085070923f,0.0849977434f,0.0849245638f,0.0848513767f,0.0847781971f,0.0847204998f,0.08466281f,0.0846051127f,0.0845474154f,0.0844897181f,0.0844320282f,0.0843743309f,0.0843166336f,0.0842589363f,0.0842012465f,0.0841491744f,0.0840971023f,0.0840450302f,0.0839929581f,0.083940886f,0.0838888139f,0.0838367417f,0.0837846696f,0.0837325975f,0.0836805254f,0.0836337954f,0.0835870579f,0.0835403204f,0.0834935904f,0.0834468529f,0.0834001154f,0.0833533779f,0.0833066478f,0.0832599103f,0.0832131729f,0.0831457227f,0.0830782652f,0.0830108076f,0.0829433575f,0.0828759f,0.0828084499f,0.0827409923f,0.0826735348f,0.0826060846f,0.0825386271f,0.0824610442f,0.0823834613f,0.0823058859f,0.082228303f,0.0821507201f,0.0820731372f,0.0819955543f,0.0819179714f,0.0818403959f,0.081762813f,0.0817293376f,0.0816958621f,0.0816623867f,0.0816289186f,0.0815954432f,0.0815619677f,0.0815284923f,0.0814950243f,0.0814615488f,0.0814280733f,0.0813781694f,0.0813282654f,0.0812783614f,0.0812284499f,0.081178546f,0.081128642f,0.081078738f,0.081028834f,0.08097893f,0.0809290186f,0.0809037834f,0.0808785558f,0.0808533207f,0.0808280855f,0.0808028504f,0.0807776153f,0.0807523802f,0.0807271451f,0.08070191f,0.0806766748f,0.0726090074f,0.0645413399f,0.0564736761f,0.0484060086f,0.0403383374f,0.0322706699f,0.0242030043f,0.0161353368f,0.00806766842f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
static const float REF_Macbeth36[400] = {0.0310235154f,0.0311200731f,0.0312166326f,0.0313131884f,0.0314097479f,0.0315063074f,0.0316028632f,0.0316994227f,0.0317959823f,0.0318925418f,0.0319890976f,0.0320181772f,0.0320472568f,0.0320763364f,0.0321054123f,0.032134492f,0.0321635716f,0.0321926512f,0.0322217308f,0.0322508104f,0.0322798863f,0.0323079005f,0.0323359109f,0.0323639214f,0.0323919356f,0.032419946f,0.0324479565f,0.0324759707f,0.0325039811f,0.0325319916f,0.0325600021f,0.0325793624f,0.0325987227f,0.0326180793f,0.0326374397f,0.0326567963f,0.0326761566f,0.0326955169f,0.0327148736f,0.0327342339f,0.0327535942f,0.0327604115f,0.0327672288f,0.0327740498f,0.0327808671f,0.0327876844f,0.0327945016f,0.0328013226f,0.0328081399f,0.0328149572f,0.0328217745f,0.0328218527f,0.0328219309f,0.0328220092f,0.0328220837f,0.0328221619f,0.0328222401f,0.0328223184f,0.0328223966f,0.0328224748f,0.0328225493f,0.0328024589f,0.0327823646f,0.0327622741f,0.0327421799f,0.0327220894f,0.0327019952f,0.0326819047f,0.0326618142f,0.03264172f,0.0326216295f,0.0326078199f,0.0325940102f,0.0325802006f,0.0325663947f,0.032552585f,0.0325387754f,0.0325249657f,0.0325111598f,0.0324973501f,0.0324835405f,0.0324755423f,0.0324675441f,0.0324595459f,0.0324515477f,0.0324435495f,0.0324355513f,0.0324275568f,0.0324195586f,0.0324115604f,0.0324035622f,0.0323958024f,0.0323880427f,0.0323802829f,0.0323725231f,0.0323647633f,0.0323570035f,0.0323492438f,0.0323414803f,0.0323337205f,0.0323259607f,0.0323241092f,0.0323222578f,0.0323204063f,0.0323185548f,0.0323167033f,0.0323148519f,0.0323130004f,0.0323111489f,0.0323092975f,0.032307446f,0.0323048607f,0.0323022753f,0.0322996862f,0.0322971009f,0.0322945155f,0.0322919302f,0.0322893448f,0.0322867595f,0.0322841741f,0.0322815888f,0.0322688818f,0.0322561786f,0.0322434716f,0.0322307646f,0.0322180614f,0.0322053544f,0.0321926475f,0.0321799442f,0.0321672373f,0.0321545303f,0.0321477465f,0.0321409591f,0.0321341716f,0.0321273878f,0.0321206003f,0.0321138129f,0.0321070254f,0.0321002416f,0.0320934542f,0.0320866667f,0.0320762247f,0.032065779f,0.0320553333f,0.0320448875f,0.0320344418f,0.0320239961f,0.0320135504f,0.0320031084f,0.0319926627f,0.031982217f,0.0319800936f,0.0319779702f,0.0319758467f,0.0319737233f,0.0319715999f,0.0319694765f,0.0319673568f,0.0319652297f,0.0319631062f,0.0319609866f,0.0319625214f,0.0319640599f,0.0319655985f,0.031967137f,0.0319686718f,0.0319702104f,0.0319717489f,0.0319732875f,0.0319748223f,0.0319763608f,0.0319706909f,0.0319650173f,0.0319593474f,0.0319536738f,0.0319480039f,0.0319423303f,0.0319366604f,0.0319309868f,0.0319253132f,0.0319196433f,0.0319224596f,0.0319252796f,0.031928096f,0.0319309123f,0.0319337286f,0.0319365487f,0.031939365f,0.0319421813f,0.0319449976f,0.0319478177f,0.031934768f,0.031921722f,0.0319086723f,0.0318956263f,0.0318825766f,0.0318695307f,0.0318564847f,0.031843435f,0.0318303891f,0.0318173394f,0.0318148956f,0.0318124518f,0.0318100043f,0.0318075605f,0.0318051167f,0.0318026692f,0.0318002254f,0.0317977816f,0.0317953378f,0.0317928903f,0.0317866467f,0.0317803994f,0.0317741521f,0.0317679085f,0.0317616612f,0.0317554139f,0.0317491703f,0.031742923f,0.0317366756f,0.0317304283f,0.0317422561f,0.0317540802f,0.0317659043f,0.0317777321f,0.0317895561f,0.0318013802f,0.031813208f,0.0318250321f,0.0318368562f,0.031848684f,0.0318572298f,0.0318657793f,0.0318743289f,0.0318828747f,0.0318914242f,0.03189997f,0.0319085196f,0.0319170654f,0.0319256149f,0.0319341645f,0.0319311582f,0.0319281556f,0.0319251493f,0.0319221467f,0.0319191404f,0.0319161378f,0.0319131315f,0.0319101252f,0.0319071226f,0.0319041163f,0.0319044702f,0.0319048204f,0.0319051743f,0.0319055244f,0.0319058783f,0.0319062285f,0.0319065824f,0.0319069326f,0.0319072865f,0.0319076367f,0.0319109559f,0.0319142751f,0.0319175906f,0.0319209099f,0.0319242291f,0.0319275446f,0.0319308639f,0.0319341794f,0.0319374986f,0.0319408178f,0.0319482647f,0.0319557115f,0.0319631584f,0.0319706053f,0.0319780521f,0.031985499f,0.0319929458f,0.0320003927f,0.0320078395f,0.0320152864f,0.0320259333f,0.0320365764f,0.0320472196f,0.0320578627f,0.0320685059f,0.032079149f,0.0320897922f,0.0321004391f,0.0321110822f,0.0321217254f,0.0321312174f,0.0321407095f,0.0321502015f,0.0321596935f,0.0321691856f,0.0321786776f,0.0321881697f,0.0321976617f,0.0322071537f,0.0322166421f,0.0322175771f,0.0322185121f,0.0322194472f,0.0322203785f,0.0322213136f,0.0322222486f,0.0322231837f,0.0322241187f,0.03222505f,0.0322259851f,0.0322276689f,0.0322293527f,0.0322310366f,0.0322327204f,0.0322344042f,0.0322360881f,0.0322377719f,0.0322394557f,0.0322411396f,0.0322428234f,0.0322514512f,0.0322600752f,0.032268703f,0.0322773308f,0.0322859548f,0.0322945826f,0.0323032066f,0.0323118344f,0.0323204622f,0.0323290862f,0.0323334411f,0.0323377959f,0.0323421508f,0.0323465057f,0.0323508605f,0.0323552154f,0.0323595703f,0.0323639251f,0.03236828f,0.0323726349f,0.0323856845f,0.0323987342f,0.0324117877f,0.0324248374f,0.032437887f,0.0324509405f,0.0324639902f,0.0324770398f,0.0324900933f,0.032503143f,0.029252829f,0.0260025151f,0.0227521993f,0.0195018854f,0.0162515715f,0.0130012566f,0.0097509427f,0.00650062878f,0.00325031392f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f,0.f};
struct RefTable { const char *name; const float *v; };
static const RefTable REF_TABLES[133] = {{"CIE1931_X",REF_CIE1931_X},{"CIE1931_Y",REF_CIE1931_Y},{"CIE1931_Z",REF_CIE1931_Z},{"CIE2012_X",REF_CIE2012_X},{"CIE2012_Y",REF_CIE2012_Y},{"CIE2012_Z",REF_CIE2012_Z},{"CIE1931_JuddVos_X",REF_CIE1931_JuddVos_X},{"CIE1931_JuddVos_Y",REF_CIE1931_JuddVos_Y},{"CIE1931_JuddVos_Z",REF_CIE1931_JuddVos_Z},{"CIE_D65",REF_CIE_D65},{"CES01",REF_CES01},{"CES02",REF_CES02},{"CES03",REF_CES03},{"CES04",REF_CES04},{"CES05",REF_CES05},{"CES06",REF_CES06},{"CES07",REF_CES07},{"CES08",REF_CES08},{"CES09",REF_CES09},{"CES10",REF_CES10},{"CES11",REF_CES11},{"CES12",REF_CES12},{"CES13",REF_CES13},{"CES14",REF_CES14},{"CES15",REF_CES15},{"CES16",REF_CES16},{"CES17",REF_CES17},{"CES18",REF_CES18},{"CES19",REF_CES19},{"CES20",REF_CES20},{"CES21",REF_CES21},{"CES22",REF_CES22},{"CES23",REF_CES23},{"CES24",REF_CES24},{"CES25",REF_CES25},{"CES26",REF_CES26},{"CES27",REF_CES27},{"CES28",REF_CES28},{"CES29",REF_CES29},{"CES30",REF_CES30},{"CES31",REF_CES31},{"CES32",REF_CES32},{"CES33",REF_CES33},{"CES34",REF_CES34},{"CES35",REF_CES35},{"CES36",REF_CES36},{"CES37",REF_CES37},{"CES38",REF_CES38},{"CES39",REF_CES39},{"CES40",REF_CES40},{"CES41",REF_CES41},{"CES42",REF_CES42},{"CES43",REF_CES43},{"CES44",REF_CES44},{"CES45",REF_CES45},{"CES46",REF_CES46},{"CES47",REF_CES47},{"CES48",REF_CES48},{"CES49",REF_CES49},{"CES50",REF_CES50},{"CES51",REF_CES51},{"CES52",REF_CES52},{"CES53",REF_CES53},{"CES54",REF_CES54},{"CES55",REF_CES55},{"CES56",REF_CES56},{"CES57",REF_CES57},{"CES58",REF_CES58},{"CES59",REF_CES59},{"CES60",REF_CES60},{"CES61",REF_CES61},{"CES62",REF_CES62},{"CES63",REF_CES63},{"CES64",REF_CES64},{"CES65",REF_CES65},{"CES66",REF_CES66},{"CES67",REF_CES67},{"CES68",REF_CES68},{"CES69",REF_CES69},{"CES70",REF_CES70},{"CES71",REF_CES71},{"CES72",REF_CES72},{"CES73",REF_CES73},{"CES74",REF_CES74},{"CES75",REF_CES75},{"CES76",REF_CES76},{"CES77",REF_CES77},{"CES78",REF_CES78},{"CES79",REF_CES79},{"CES80",REF_CES80},{"CES81",REF_CES81},{"CES82",REF_CES82},{"CES83",REF_CES83},{"CES84",REF_CES84},{"CES85",REF_CES85},{"CES86",REF_CES86},{"CES87",REF_CES87},{"CES88",REF_CES88},{"CES89",REF_CES89},{"CES90",REF_CES90},{"CES91",REF_CES91},{"CES92",REF_CES92},{"CES93",REF_CES93},{"CES94",REF_CES94},{"CES95",REF_CES95},{"CES96",REF_CES96},{"CES97",REF_CES97},{"CES98",REF_CES98},{"CES99",REF_CES99},{"Macbeth01",REF_Macbeth01},{"Macbeth02",REF_Macbeth02},{"Macbeth03",REF_Macbeth03},{"Macbeth04",REF_Macbeth04},{"Macbeth05",REF_Macbeth05},{"Macbeth06",REF_Macbeth06},{"Macbeth11",REF_Macbeth11},{"Macbeth12",REF_Macbeth12},{"Macbeth13",REF_Macbeth13},{"Macbeth14",REF_Macbeth14},{"Macbeth15",REF_Macbeth15},{"Macbeth16",REF_Macbeth16},{"Macbeth21",REF_Macbeth21},{"Macbeth22",REF_Macbeth22},{"Macbeth23",REF_Macbeth23},{"Macbeth24",REF_Macbeth24},{"Macbeth25",REF_Macbeth25},{"Macbeth26",REF_Macbeth26},{"Macbeth31",REF_Macbeth31},{"Macbeth32",REF_Macbeth32},{"Macbeth33",REF_Macbeth33},{"Macbeth34",REF_Macbeth34},{"Macbeth35",REF_Macbeth35},{"Macbeth36",REF_Macbeth36}};
