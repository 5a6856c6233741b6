------------------------------- MODULE GBasis -------------------------------
(* Bases.  A basis is [name, dim, pars]: "legendre" of any dimension,        *)
(* "lagrange" with its nodes in pars, "basis0101" (six functions) with its   *)
(* parameter alpha in pars.  BJets(b, s, tau, k) is the sequence over basis  *)
(* functions of their jets of order k with respect to time, at the window    *)
(* point s of an interval of length tau (time and window are related by      *)
(* t = tau (s+1)/2 + left end).                                              *)
EXTENDS GJet

(* Gauss-Lobatto nodes, stated as literals; GNodesOK below says what they are *)
GNodes(n) ==
  CASE n = 2 -> <<"-1", "1">>
    [] n = 3 -> <<"-1", "0", "1">>
    [] n = 4 -> <<"-1", "-0.447213595499957939281834733746255247088124", "0.447213595499957939281834733746255247088124", "1">>
    [] n = 5 -> <<"-1", "-0.654653670707977143798292456246858355569208", "0", "0.654653670707977143798292456246858355569208", "1">>
    [] n = 6 -> <<"-1", "-0.765055323929464692851002973959338150365736", "-0.285231516480645096314150994040879071919003", "0.285231516480645096314150994040879071919003", "0.765055323929464692851002973959338150365736", "1">>
    [] n = 7 -> <<"-1", "-0.830223896278566929872032213967465139587170", "-0.468848793470714213803771881908766329405597", "0", "0.468848793470714213803771881908766329405597", "0.830223896278566929872032213967465139587170", "1">>
    [] n = 8 -> <<"-1", "-0.871740148509606615337445761220663438103781", "-0.591700181433142302144510731397953189945701", "-0.209299217902478868768657260345351255295545", "0.209299217902478868768657260345351255295545", "0.591700181433142302144510731397953189945701", "0.871740148509606615337445761220663438103781", "1">>
    [] n = 9 -> <<"-1", "-0.899757995411460157312345244418337958051480", "-0.677186279510737753445885427091342450711030", "-0.363117463826178158710752068708659213020642", "0", "0.363117463826178158710752068708659213020642", "0.677186279510737753445885427091342450711030", "0.899757995411460157312345244418337958051480", "1">>
    [] n = 10 -> <<"-1", "-0.919533908166458813828932660822338134153543", "-0.738773865105505075003106174859830725016185", "-0.477924949810444495661175092731257997886773", "-0.165278957666387024626219765958173533231150", "0.165278957666387024626219765958173533231150", "0.477924949810444495661175092731257997886773", "0.738773865105505075003106174859830725016185", "0.919533908166458813828932660822338134153543", "1">>
    [] n = 11 -> <<"-1", "-0.934001430408059134332274136099383634539917", "-0.784483473663144418622417816108458103507197", "-0.565235326996205006470963969477751664283052", "-0.295758135586939391431911515559057508941006", "0", "0.295758135586939391431911515559057508941006", "0.565235326996205006470963969477751664283052", "0.784483473663144418622417816108458103507197", "0.934001430408059134332274136099383634539917", "1">>
    [] n = 12 -> <<"-1", "-0.944899272222882223407580138303218713611257", "-0.819279321644006678348641581716902660690467", "-0.632876153031860677662404854443655858243844", "-0.399530940965348932264349791566966900527748", "-0.136552932854927554864061855739693896898414", "0.136552932854927554864061855739693896898414", "0.399530940965348932264349791566966900527748", "0.632876153031860677662404854443655858243844", "0.819279321644006678348641581716902660690467", "0.944899272222882223407580138303218713611257", "1">>
    [] n = 13 -> <<"-1", "-0.953309846642163911896905464755449151626508", "-0.846347564651872316865925607098753359578037", "-0.686188469081757426072759039566355552929176", "-0.482909821091336201746937233636933620772193", "-0.249286930106239992568673700374226981488811", "0", "0.249286930106239992568673700374226981488811", "0.482909821091336201746937233636933620772193", "0.686188469081757426072759039566355552929176", "0.846347564651872316865925607098753359578037", "0.953309846642163911896905464755449151626508", "1">>
    [] n = 14 -> <<"-1", "-0.959935045267260901355100162015424389066392", "-0.867801053830347251000220202908264213249872", "-0.728868599091326140584672400520881595657340", "-0.550639402928647055316622705859080634462138", "-0.342724013342712845043903403641674644833114", "-0.116331868883703867658776709736160167941509", "0.116331868883703867658776709736160167941509", "0.342724013342712845043903403641674644833114", "0.550639402928647055316622705859080634462138", "0.728868599091326140584672400520881595657340", "0.867801053830347251000220202908264213249872", "0.959935045267260901355100162015424389066392", "1">>
    [] n = 15 -> <<"-1", "-0.965245926503838572795851392069601177707650", "-0.885082044222976298825401631482229651988714", "-0.763519689951815200704118475976291618177369", "-0.606253205469845711123529938636733507179731", "-0.420638054713672480921896938738580412984338", "-0.215353955363794238225679446272917712652158", "0", "0.215353955363794238225679446272917712652158", "0.420638054713672480921896938738580412984338", "0.606253205469845711123529938636733507179731", "0.763519689951815200704118475976291618177369", "0.885082044222976298825401631482229651988714", "0.965245926503838572795851392069601177707650", "1">>
    [] n = 16 -> <<"-1", "-0.969568046270217932952242738367459241388991", "-0.899200533093472092994628261519849476749998", "-0.792008291861815063931088270963145705808074", "-0.652388702882493089467883219640581480321558", "-0.486059421887137611781890785846874696888977", "-0.299830468900763208098353454722300647815461", "-0.101326273521949447843033005045917762533241", "0.101326273521949447843033005045917762533241", "0.299830468900763208098353454722300647815461", "0.486059421887137611781890785846874696888977", "0.652388702882493089467883219640581480321558", "0.792008291861815063931088270963145705808074", "0.899200533093472092994628261519849476749998", "0.969568046270217932952242738367459241388991", "1">>
    [] n = 17 -> <<"-1", "-0.973132176631418314156979501873721430588959", "-0.910879995915573595623802506397726467530879", "-0.815696251221770307106750553237526654716402", "-0.691028980627684705394919357372453296806413", "-0.541385399330101539123733407504063251675147", "-0.372174433565477041907234680735257812559817", "-0.189511973518317388304263014753113971344992", "0", "0.189511973518317388304263014753113971344992", "0.372174433565477041907234680735257812559817", "0.541385399330101539123733407504063251675147", "0.691028980627684705394919357372453296806413", "0.815696251221770307106750553237526654716402", "0.910879995915573595623802506397726467530879", "0.973132176631418314156979501873721430588959", "1">>
    [] n = 18 -> <<"-1", "-0.976105557412198542864518924341700066761813", "-0.920649185347533873837854625431277423562353", "-0.835593535218090213713646362327937257433671", "-0.723679329283242681306210365302070679149525", "-0.588504834318661761173535893193559469000837", "-0.434415036912123975342287136740674795849758", "-0.266362652878280984167665332025595942065136", "-0.0897490934846521110226450100885617349606039", "0.0897490934846521110226450100885617349606039", "0.266362652878280984167665332025595942065136", "0.434415036912123975342287136740674795849758", "0.588504834318661761173535893193559469000837", "0.723679329283242681306210365302070679149525", "0.835593535218090213713646362327937257433671", "0.920649185347533873837854625431277423562353", "0.976105557412198542864518924341700066761813", "1">>
    [] n = 19 -> <<"-1", "-0.978611766222080095152634063110222562814277", "-0.928901528152586243717940258796548612450168", "-0.852460577796646093085955970041062625237095", "-0.751494202552613014163637489633944040403659", "-0.628908137265220497766832306228732547068611", "-0.488229285680713502777909637624923369771216", "-0.333504847824498610298500103844927011922963", "-0.169186023409281571375154153444880423752896", "0", "0.169186023409281571375154153444880423752896", "0.333504847824498610298500103844927011922963", "0.488229285680713502777909637624923369771216", "0.628908137265220497766832306228732547068611", "0.751494202552613014163637489633944040403659", "0.852460577796646093085955970041062625237095", "0.928901528152586243717940258796548612450168", "0.978611766222080095152634063110222562814277", "1">>
    [] n = 20 -> <<"-1", "-0.980743704893914171925446438584230915229911", "-0.935934498812665435716181584930626929915574", "-0.866877978089950141309847214616285213962911", "-0.775368260952055870414317527594691343372722", "-0.663776402290311289846403322971158852475746", "-0.534992864031886261648135961828983983006852", "-0.392353183713909299386474703815824366665203", "-0.239551705922986495182401356927088071941518", "-0.0805459372388218379759445181595544630223929", "0.0805459372388218379759445181595544630223929", "0.239551705922986495182401356927088071941518", "0.392353183713909299386474703815824366665203", "0.534992864031886261648135961828983983006852", "0.663776402290311289846403322971158852475746", "0.775368260952055870414317527594691343372722", "0.866877978089950141309847214616285213962911", "0.935934498812665435716181584930626929915574", "0.980743704893914171925446438584230915229911", "1">>
    [] n = 21 -> <<"-1", "-0.982572296604548028234481276555405876859172", "-0.941976296959745534296102650661435176649651", "-0.879294755323590464451153596304944047710582", "-0.796001926077712404744312589660358639090420", "-0.694051026062223232627316393194666628757716", "-0.575831960261830686927021870338085287335773", "-0.444115783279002101194516349607351284735057", "-0.301989856508764887275351867858752232021071", "-0.152785515802185466006358328485669435517749", "0", "0.152785515802185466006358328485669435517749", "0.301989856508764887275351867858752232021071", "0.444115783279002101194516349607351284735057", "0.575831960261830686927021870338085287335773", "0.694051026062223232627316393194666628757716", "0.796001926077712404744312589660358639090420", "0.879294755323590464451153596304944047710582", "0.941976296959745534296102650661435176649651", "0.982572296604548028234481276555405876859172", "1">>
    [] n = 22 -> <<"-1", "-0.984152438457646176552289622212070296605514", "-0.947204283999228680524213766615729509912062", "-0.890062290190904470529657825779086790199534", "-0.813948927611921136045441848056135042438669", "-0.720487239961202158119881896398465758593345", "-0.611669438284258971226211605869926599345440", "-0.489814875189902349808751235683270041671272", "-0.357520710138919538060957280240179129283307", "-0.217606585159285041787955093465392763275007", "-0.0730545400108983347610887904641073561927792", "0.0730545400108983347610887904641073561927792", "0.217606585159285041787955093465392763275007", "0.357520710138919538060957280240179129283307", "0.489814875189902349808751235683270041671272", "0.611669438284258971226211605869926599345440", "0.720487239961202158119881896398465758593345", "0.813948927611921136045441848056135042438669", "0.890062290190904470529657825779086790199534", "0.947204283999228680524213766615729509912062", "0.984152438457646176552289622212070296605514", "1">>
    [] n = 23 -> <<"-1", "-0.985527155878732578081462766738099099020611", "-0.951757955710710204135639679851429155848352", "-0.899458558040345010950160320347367157911798", "-0.829651096651285886223200619290004884598512", "-0.743695041172060683945163543066996791287219", "-0.643263644460136208476145533602768743891312", "-0.530311771136844168130115320152299811130347", "-0.407037937914474829195950488215095639551954", "-0.275841548945793067106877632679135204173191", "-0.139276204040668398591862612982766933908544", "0", "0.139276204040668398591862612982766933908544", "0.275841548945793067106877632679135204173191", "0.407037937914474829195950488215095639551954", "0.530311771136844168130115320152299811130347", "0.643263644460136208476145533602768743891312", "0.743695041172060683945163543066996791287219", "0.829651096651285886223200619290004884598512", "0.899458558040345010950160320347367157911798", "0.951757955710710204135639679851429155848352", "0.985527155878732578081462766738099099020611", "1">>
    [] n = 24 -> <<"-1", "-0.986730553505160883553086738154474975371920", "-0.955748220929886358026977130550644831070733", "-0.907705675113506521995152996466207749208420", "-0.843464070154872040623305037423342285841076", "-0.764170482420493307787375280952293651321060", "-0.671240105264128699835664858187006756574023", "-0.566331357979295312189409544542283770438895", "-0.451316373214322618248218491569622448823088", "-0.328247613375510912033389179359609343701178", "-0.199321253390832667236572539124990730811876", "-0.0668379937372285781136418083916773097962232", "0.0668379937372285781136418083916773097962232", "0.199321253390832667236572539124990730811876", "0.328247613375510912033389179359609343701178", "0.451316373214322618248218491569622448823088", "0.566331357979295312189409544542283770438895", "0.671240105264128699835664858187006756574023", "0.764170482420493307787375280952293651321060", "0.843464070154872040623305037423342285841076", "0.907705675113506521995152996466207749208420", "0.955748220929886358026977130550644831070733", "0.986730553505160883553086738154474975371920", "1">>
    [] n = 32 -> <<"-1", "-0.992608933972761359371541315277447871122901", "-0.975294690482709228062455950388154974229467", "-0.948284838417232378083328241588428718163358", "-0.911849939063731904074531452374070786020158", "-0.866352476012675519830814769424543490360231", "-0.812244731777442344546821788072578119760891", "-0.750064493936674797717275964678304056566863", "-0.680429755615550815942395757698849008575860", "-0.604032587148421126137172912611890069651936", "-0.521632262881565290606592573392018869648565", "-0.434047717201846939603319357006391181538000", "-0.342149406538881486253812220698715392696324", "-0.246850658850205304416241431158871956175379", "-0.149098596813647494914381876170039658290632", "-0.0498647250465932523062977447284261802971492", "0.0498647250465932523062977447284261802971492", "0.149098596813647494914381876170039658290632", "0.246850658850205304416241431158871956175379", "0.342149406538881486253812220698715392696324", "0.434047717201846939603319357006391181538000", "0.521632262881565290606592573392018869648565", "0.604032587148421126137172912611890069651936", "0.680429755615550815942395757698849008575860", "0.750064493936674797717275964678304056566863", "0.812244731777442344546821788072578119760891", "0.866352476012675519830814769424543490360231", "0.911849939063731904074531452374070786020158", "0.948284838417232378083328241588428718163358", "0.975294690482709228062455950388154974229467", "0.992608933972761359371541315277447871122901", "1">>
    [] n = 33 -> <<"-1", "-0.993056358433658343667336086756235553667097", "-0.976786163316906301485627608381318678160355", "-0.951393451396995743375524416913560151609641", "-0.917117303450941240825679069756821197961618", "-0.874278100750562220646560629330344405346448", "-0.823275923004067469559071313266714869179387", "-0.764587001793528628006658480423087948831669", "-0.698759316618162595699677247544417201856183", "-0.626407491281268257263831342410714728097254", "-0.548207059919111623110404711760630847472757", "-0.464888161632106755973003720985260345709880", "-0.377228724253393635041934660717999110830180", "-0.286047201487674041605344502963044406926628", "-0.192194931467477225741306995441157209580499", "-0.0965481881761070063169577880916254760669399", "0", "0.0965481881761070063169577880916254760669399", "0.192194931467477225741306995441157209580499", "0.286047201487674041605344502963044406926628", "0.377228724253393635041934660717999110830180", "0.464888161632106755973003720985260345709880", "0.548207059919111623110404711760630847472757", "0.626407491281268257263831342410714728097254", "0.698759316618162595699677247544417201856183", "0.764587001793528628006658480423087948831669", "0.823275923004067469559071313266714869179387", "0.874278100750562220646560629330344405346448", "0.917117303450941240825679069756821197961618", "0.951393451396995743375524416913560151609641", "0.976786163316906301485627608381318678160355", "0.993056358433658343667336086756235553667097", "1">>
    [] n = 27 -> <<"-1", "-0.989560963728550621148874640054519437666879", "-0.965148402450818919264266803121130054668981", "-0.927183458725115778859746764072718731560431", "-0.876202086214522478666543049194140841926713", "-0.812920486895812288258091864758537912073318", "-0.738227149846459910839427225748405274002993", "-0.653170663696809515178704875182460948194378", "-0.558945060942561180062668074868124774907933", "-0.456873075614082403678612650839242022242771", "-0.348387581989028670437086578587166595763475", "-0.235011483102918133336801580513331663781449", "-0.118336333898521048438708268275316328219430", "0", "0.118336333898521048438708268275316328219430", "0.235011483102918133336801580513331663781449", "0.348387581989028670437086578587166595763475", "0.456873075614082403678612650839242022242771", "0.558945060942561180062668074868124774907933", "0.653170663696809515178704875182460948194378", "0.738227149846459910839427225748405274002993", "0.812920486895812288258091864758537912073318", "0.876202086214522478666543049194140841926713", "0.927183458725115778859746764072718731560431", "0.965148402450818919264266803121130054668981", "0.989560963728550621148874640054519437666879", "1">>
    [] n = 40 -> <<"-1", "-0.995297929244348896904262039796688274861138", "-0.984266280717503354734035263020164865172782", "-0.967010076487988520647637284409235312598688", "-0.943639764943601642574206871220705346569063", "-0.914303339690209451072666808039584536906290", "-0.879186343479339837890063335889594935290617", "-0.838510822778106440735650779556778294622066", "-0.792533952601551886811079181123509238263916", "-0.741546419147384417491601825435323891445046", "-0.685870585084313713826864853884771405919581", "-0.625858452755257513399844464853341508814888", "-0.561889439294722648770394114953530709863824", "-0.494367978125253606653351189098585256835679", "-0.423720962155550984750338309291803552955465", "-0.350395044914180877980387955653664347666802", "-0.274853816714324366517614846898110797661302", "-0.197574873718910771843626103809642935794006", "-0.119046798444971093517345098301981989307858", "-0.0397660708021819001473659420794585192070653", "0.0397660708021819001473659420794585192070653", "0.119046798444971093517345098301981989307858", "0.197574873718910771843626103809642935794006", "0.274853816714324366517614846898110797661302", "0.350395044914180877980387955653664347666802", "0.423720962155550984750338309291803552955465", "0.494367978125253606653351189098585256835679", "0.561889439294722648770394114953530709863824", "0.625858452755257513399844464853341508814888", "0.685870585084313713826864853884771405919581", "0.741546419147384417491601825435323891445046", "0.792533952601551886811079181123509238263916", "0.838510822778106440735650779556778294622066", "0.879186343479339837890063335889594935290617", "0.914303339690209451072666808039584536906290", "0.943639764943601642574206871220705346569063", "0.967010076487988520647637284409235312598688", "0.984266280717503354734035263020164865172782", "0.995297929244348896904262039796688274861138", "1">>
    [] n = 47 -> <<"-1", "-0.996606460542120689100203613871882041773705", "-0.988638953918082671321447751862087113203459", "-0.976159284069717169990159968227451943185286", "-0.959225365506996570193695044512881401936764", "-0.937914635938644823236031526786953028853688", "-0.912324380558637882417764810273470032993615", "-0.882571380155343924329266225149158453450041", "-0.848791398929183857825307210353519414137626", "-0.811138571206589038773796174913878812772130", "-0.769784700390082013731467270491941152290794", "-0.724918475981148510130373311459217359990122", "-0.676744613056357123175095186725416525658640", "-0.625482918409846591751866066828549779479694", "-0.571367287737130474715515813107827378061190", "-0.514644638485409135738924183948144092083123", "-0.455573783262754294328385644460254514287344", "-0.394424248958094301218857729809434012024690", "-0.331475046966145101677077831391676520619902", "-0.267013400131795535147989090748025174753224", "-0.201333432224510103691964651525557697258509", "-0.134734825923506926548637983488304190635327", "-0.0675214554377145498419331323747247729337802", "0", "0.0675214554377145498419331323747247729337802", "0.134734825923506926548637983488304190635327", "0.201333432224510103691964651525557697258509", "0.267013400131795535147989090748025174753224", "0.331475046966145101677077831391676520619902", "0.394424248958094301218857729809434012024690", "0.455573783262754294328385644460254514287344", "0.514644638485409135738924183948144092083123", "0.571367287737130474715515813107827378061190", "0.625482918409846591751866066828549779479694", "0.676744613056357123175095186725416525658640", "0.724918475981148510130373311459217359990122", "0.769784700390082013731467270491941152290794", "0.811138571206589038773796174913878812772130", "0.848791398929183857825307210353519414137626", "0.882571380155343924329266225149158453450041", "0.912324380558637882417764810273470032993615", "0.937914635938644823236031526786953028853688", "0.959225365506996570193695044512881401936764", "0.976159284069717169990159968227451943185286", "0.988638953918082671321447751862087113203459", "0.996606460542120689100203613871882041773705", "1">>
    [] n = 50 -> <<"-1", "-0.997005175362643586236157283564883610596651", "-0.989972220058020802022452021325916415493841", "-0.978951910646719809267309920606086982742821", "-0.963989480109968612133874448449678482474214", "-0.945145328680881413768192514119990651469030", "-0.922495378502752746656972056125114909845365", "-0.896130849076832632761554314644576792074034", "-0.866157908177353310967716524351525682128054", "-0.832697249796457952787036633409697955207583", "-0.795883610117728469387034158208207851957009", "-0.755865225794053039060412422656071537072047", "-0.712803237423645859854429895894903663456267", "-0.666871040879044815895628172352498281114462", "-0.618253589201529170833817986863014794499376", "-0.567146647915670425728937892035594495948150", "-0.513756006783048744067551370541528601790661", "-0.458296651179299759274823966191886117703415", "-0.400991896436398480899217399576444688195574", "-0.342072488638803843629072490887104112229498", "-0.281775675495909512022963932240344928146105", "-0.220344251033056476065653181607196812200572", "-0.158025577948402902986514616511225902104707", "-0.0950705915726566477616429962894086938952777", "-0.0317327894426237129119321580569334454792555", "0.0317327894426237129119321580569334454792555", "0.0950705915726566477616429962894086938952777", "0.158025577948402902986514616511225902104707", "0.220344251033056476065653181607196812200572", "0.281775675495909512022963932240344928146105", "0.342072488638803843629072490887104112229498", "0.400991896436398480899217399576444688195574", "0.458296651179299759274823966191886117703415", "0.513756006783048744067551370541528601790661", "0.567146647915670425728937892035594495948150", "0.618253589201529170833817986863014794499376", "0.666871040879044815895628172352498281114462", "0.712803237423645859854429895894903663456267", "0.755865225794053039060412422656071537072047", "0.795883610117728469387034158208207851957009", "0.832697249796457952787036633409697955207583", "0.866157908177353310967716524351525682128054", "0.896130849076832632761554314644576792074034", "0.922495378502752746656972056125114909845365", "0.945145328680881413768192514119990651469030", "0.963989480109968612133874448449678482474214", "0.978951910646719809267309920606086982742821", "0.989972220058020802022452021325916415493841", "0.997005175362643586236157283564883610596651", "1">>
    [] n = 64 -> <<"-1", "-0.998179871502163215183455468233903047175042", "-0.993902726703057292374784226512247730106447", "-0.987192676602740242647719433769169134755987", "-0.978066662831396073956634552642378736847012", "-0.966547110369099233518165043401991859079391", "-0.952662235788662915462358933759355480080474", "-0.936446027475634162452937023520172750041471", "-0.917938173510281630834327113956370732286279", "-0.897183967845850042836223385322937793390979", "-0.874234200657627491768542560630843905567104", "-0.849145034542990985005141953427233263833655", "-0.821977867307517050075859287519273339530087", "-0.792799181826208137348025365104955150024618", "-0.761680383408119967788661305864178698261066", "-0.728697625088836939572236560545325366748285", "-0.693931621290704840810228087692200118840118", "-0.657467450312976504210330166038871339086972", "-0.619394346138431547543276932025982433288840", "-0.579805480067718423727433681283698963384783", "-0.538797732716800438993907187454467313045716", "-0.496471456936057753503303978601586960862326", "-0.452930232231581181989845917251589278568332", "-0.408280611289854044527904415807730666127792", "-0.362631859226261823686889524635827926590194", "-0.316095686195625806396436920838768667828046", "-0.268785974019170003988887150684441711252854", "-0.220818497496953503207563093733068425454477", "-0.172310641087792971318875358367820570646325", "-0.123381111650027986160475294630739660885024", "-0.0741496479461159187344696716459778019726223", "-0.0247367276219587284949909547548177123487898", "0.0247367276219587284949909547548177123487898", "0.0741496479461159187344696716459778019726223", "0.123381111650027986160475294630739660885024", "0.172310641087792971318875358367820570646325", "0.220818497496953503207563093733068425454477", "0.268785974019170003988887150684441711252854", "0.316095686195625806396436920838768667828046", "0.362631859226261823686889524635827926590194", "0.408280611289854044527904415807730666127792", "0.452930232231581181989845917251589278568332", "0.496471456936057753503303978601586960862326", "0.538797732716800438993907187454467313045716", "0.579805480067718423727433681283698963384783", "0.619394346138431547543276932025982433288840", "0.657467450312976504210330166038871339086972", "0.693931621290704840810228087692200118840118", "0.728697625088836939572236560545325366748285", "0.761680383408119967788661305864178698261066", "0.792799181826208137348025365104955150024618", "0.821977867307517050075859287519273339530087", "0.849145034542990985005141953427233263833655", "0.874234200657627491768542560630843905567104", "0.897183967845850042836223385322937793390979", "0.917938173510281630834327113956370732286279", "0.936446027475634162452937023520172750041471", "0.952662235788662915462358933759355480080474", "0.966547110369099233518165043401991859079391", "0.978066662831396073956634552642378736847012", "0.987192676602740242647719433769169134755987", "0.993902726703057292374784226512247730106447", "0.998179871502163215183455468233903047175042", "1">>
    [] n = 65 -> <<"-1", "-0.998235858985168158701431228300673664830074", "-0.994090150118423121239637139770827334063516", "-0.987585930769509135514003179734860142895998", "-0.978739133191998889494039456522554550563433", "-0.967570830266913614343893849603482710579737", "-0.954107537460022212778817241933431653291657", "-0.938381197682665556981808761062435027230082", "-0.920429116242990778477444129090791299605015", "-0.900293875561607010882469416738644681107423", "-0.878023235324945710036145341767931523371282", "-0.853670019681449308699122656062670720806194", "-0.827291992166940420597884614217868625827585", "-0.798951718804367380623093085681842048651816", "-0.768716419761627539364944871816972854114177", "-0.736657809944952395690901167759658370249782", "-0.702851928917937019446908669987954354923954", "-0.667378960555587341343275983871335187810710", "-0.630323042864267422910975625165210697838818", "-0.591772068420342079233737069313757383256049", "-0.551817475901825379966029593069521736206598", "-0.510554033208072030401671490211060940321222", "-0.468079612682275662640837347345142427102501", "-0.424494958970138408210523008965222551617447", "-0.379903450065463996209781674706027845993972", "-0.334410852109538432458407908234540576568081", "-0.288125068525947475729758702526067500177377", "-0.241155884085896520507914875479252793234877", "-0.193614704511110181853616034700408974077721", "-0.145614292231964904959301415164589328270613", "-0.0972684989276217033341255492345076895643103", "-0.0486919954825551173571824742802873958003849", "0", "0.0486919954825551173571824742802873958003849", "0.0972684989276217033341255492345076895643103", "0.145614292231964904959301415164589328270613", "0.193614704511110181853616034700408974077721", "0.241155884085896520507914875479252793234877", "0.288125068525947475729758702526067500177377", "0.334410852109538432458407908234540576568081", "0.379903450065463996209781674706027845993972", "0.424494958970138408210523008965222551617447", "0.468079612682275662640837347345142427102501", "0.510554033208072030401671490211060940321222", "0.551817475901825379966029593069521736206598", "0.591772068420342079233737069313757383256049", "0.630323042864267422910975625165210697838818", "0.667378960555587341343275983871335187810710", "0.702851928917937019446908669987954354923954", "0.736657809944952395690901167759658370249782", "0.768716419761627539364944871816972854114177", "0.798951718804367380623093085681842048651816", "0.827291992166940420597884614217868625827585", "0.853670019681449308699122656062670720806194", "0.878023235324945710036145341767931523371282", "0.900293875561607010882469416738644681107423", "0.920429116242990778477444129090791299605015", "0.938381197682665556981808761062435027230082", "0.954107537460022212778817241933431653291657", "0.967570830266913614343893849603482710579737", "0.978739133191998889494039456522554550563433", "0.987585930769509135514003179734860142895998", "0.994090150118423121239637139770827334063516", "0.998235858985168158701431228300673664830074", "1">>

RECURSIVE LegendreUpTo(_, _, _)
LegendreUpTo(x, n, acc) ==     \* acc holds P_0..P_{m-1} as jets in x
  LET m == Len(acc) IN
  IF m >= n THEN SubSeq(acc, 1, n)
  ELSE IF m = 1 THEN LegendreUpTo(x, n, Append(acc, x))
  ELSE LegendreUpTo(x, n, Append(acc,
         JSub(JScale(RDiv(R(2 * m - 1), R(m)), JMul(x, acc[m])),
              JScale(RDiv(R(m - 1), R(m)), acc[m - 1]))))
LegendreJets(x, n) == LegendreUpTo(x, n, << JConst(1, Len(x) - 1) >>)

RECURSIVE JProd(_, _)
JProd(s, k) == IF s = <<>> THEN JConst(1, k) ELSE JMul(Head(s), JProd(Tail(s), k))
LagrangeJet(x, nodes, i) ==
  LET k == Len(x) - 1
      Fac(j) == IF j = i THEN JConst(1, k)
                ELSE JScale(RDiv(R(1), RSub(R(nodes[i]), R(nodes[j]))),
                            JSub(x, JConst(nodes[j], k)))
  IN JProd([j \in 1..Len(nodes) |-> Fac(j)], k)

(* the window coordinate is an affine function of the jet variable *)
(* frequency of basis0101: sqrt(2)/4 (alpha/(1-alpha))^(1/4)                 *)
K0101(al) == RMul(RDiv(RSqrt(R(2)), R(4)), RSqrt(RSqrt(RDiv(R(al), RSub(R(1), R(al))))))
Jets0101(x, tau, al) ==
  LET k == Len(x) - 1
      p == JScale(RMul(K0101(al), R(tau)), x)
      sl == IF k = 0 THEN R(0) ELSE p[2]
      ep == JCompAffine(JExpAt(p[1], k), sl)
      en == JCompAffine(JExpAt(RNeg(p[1]), k), RNeg(sl))
      co == JCompAffine(JCosAt(p[1], k), sl)
      si == JCompAffine(JSinAt(p[1], k), sl)
  IN << JMul(ep, co), JMul(ep, si), JMul(en, co), JMul(en, si), p, JConst(1, k) >>

(* jets in a variable in which the window coordinate has the jet x           *)
BJetsAt(b, x, tau) ==
  CASE b.name = "legendre" -> LegendreJets(x, b.dim)
    [] b.name = "lagrange" -> RVec([i \in 1..b.dim |-> LagrangeJet(x, b.pars, i)])
    [] b.name = "basis0101" -> Jets0101(x, tau, b.pars[1])
BJets(b, s, tau, k) == BJetsAt(b, JAffine(R(s), RDiv(R(2), R(tau)), k), tau)

(* norm of the matrix of first derivatives of Lagrange polynomials at their  *)
(* nodes.  Derivatives beyond the degree are zero, but come out of sums of   *)
(* terms of the size of its powers                                           *)
RMaxOf(s) == LET RECURSIVE go(_, _)
                 go(i, m) == IF i > Len(s) THEN m ELSE go(i + 1, IF RLe(s[i], m) THEN m ELSE s[i])
             IN go(1, R(0))
LagNorm(b) ==
  RMaxOf([i \in 1..b.dim |-> LET d == BJetsAt(b, JVar(b.pars[i], 1), "2") IN RSum([j \in 1..b.dim |-> RAbs(d[j][2])])])

(* The library reads Lagrange bases at window points within 1e-9 of a node   *)
(* at that node                                                              *)
AtNode(b, s) == b.name = "lagrange" /\ \E i \in 1..b.dim :
                  LET d == RSub(R(s), R(b.pars[i])) IN RLe(RAbs(d), R("3e-9")) /\ RCmp(d, R(0)) # 0
Snap(b, x) == RMul(RMul(R(4000), LagNorm(b)), x)

(* m-th time derivative of every basis function *)
BDer(b, s, tau, m) ==
  IF b.name = "lagrange" /\ m >= b.dim
  THEN LET z == RBlur(R(0), RPow(RMul(LagNorm(b), RDiv(R(2), R(tau))), m)) IN RVec([i \in 1..b.dim |-> z])
  ELSE LET j == BJets(b, s, tau, m) v == RVec([i \in 1..b.dim |-> RMul(RFact(m), j[i][m + 1])])
       IN IF AtNode(b, s)
          THEN LET z == Snap(b, RPow(RMul(LagNorm(b), RDiv(R(2), R(tau))), m)) IN RVec([i \in 1..b.dim |-> RBlur(v[i], z)])
          ELSE v

(* derivative of BDer with respect to tau at a fixed window point: the       *)
(* polynomial bases depend on tau only through the factor (2/tau)^m, the     *)
(* functions of basis0101 are functions of tau s / 2 only.                   *)
BDerTau(b, s, tau, m) ==
  IF b.name = "basis0101"
  THEN LET d == BDer(b, s, tau, m + 1) IN RVec([i \in 1..b.dim |-> RMul(RDiv(R(s), R(2)), d[i])])
  ELSE LET d == BDer(b, s, tau, m) IN RVec([i \in 1..b.dim |-> RMul(RNeg(RDiv(R(m), R(tau))), d[i])])

(* Inner products over an interval of length tau of the m-th derivatives.    *)
(* Taylor coefficients at the centre of the window, integrated termwise: the *)
(* functions are polynomials, or entire functions whose series is cut where  *)
(* it cannot matter.                                                         *)
GramOrder(b) == IF b.name = "basis0101" THEN 44 ELSE 2 * b.dim
(* jets in s at s = 0 of the m-th time derivatives *)
WinJets(b, tau, m, k) ==
  LET j == BJetsAt(b, JAffine(R(0), R(1), k + m), tau)
  IN RVec([i \in 1..b.dim |-> JScale(RPow(RDiv(R(2), R(tau)), m), JShift(j[i], m))])
Gram(b, tau, m) ==
  LET w == WinJets(b, tau, m, GramOrder(b))
      U == RVec([i \in 1..b.dim |-> RVec([j \in 1..b.dim |->      \* symmetric
             IF j < i THEN R(0) ELSE RMul(RDiv(R(tau), R(2)), RIntProd(w[i], w[j]))])])
  IN RVec([i \in 1..b.dim |-> RVec([j \in 1..b.dim |-> IF j < i THEN U[j][i] ELSE U[i][j]])])
(* its derivative with respect to tau *)
GramTau(b, tau, m) ==
  IF b.name = "basis0101"
  THEN LET p == BDer(b, 1, tau, m) n == BDer(b, -1, tau, m)
       IN [i \in 1..b.dim |-> [j \in 1..b.dim |->
             RDiv(RAdd(RMul(p[i], p[j]), RMul(n[i], n[j])), R(2))]]
  ELSE LET g == Gram(b, tau, m)
       IN [i \in 1..b.dim |-> [j \in 1..b.dim |->
             RMul(RDiv(R(1 - 2 * m), R(tau)), g[i][j])]]

(* what the node literals are: the zeros of (1 - x^2) P'_{n-1}, increasing   *)
LegendreD(n, x) == LegendreJets(JVar(x, 1), n + 1)[n + 1]   \* <<P_n(x), P_n'(x)>>
GNodesOK(n) ==
  LET g == GNodes(n) IN
  /\ Len(g) = n
  /\ \A i \in 1..(n - 1) : RLt(R(g[i]), R(g[i + 1]))
  /\ R(g[1]) = R(-1) /\ R(g[n]) = R(1)
  /\ \A i \in 2..(n - 1) : RClose(LegendreD(n - 1, R(g[i]))[2], R(0), R("1e-30"))
GNodeCounts == (2..24) \cup {27, 32, 33, 40, 47, 50, 64, 65}
GWeight(n, i) ==      \* 2 / (n (n-1) P_{n-1}(x_i)^2)
  LET p == RExact(LegendreD(n - 1, R(GNodes(n)[i]))[1])
  IN RDiv(R(2), RMul(R(n * (n - 1)), RMul(p, p)))
=============================================================================
