// generated by tools/gen_bessel.py
/// (low, high, Taylor coefficients in t, truncation bound)
pub type Piece = (f64, f64, &'static [f64], f64);
#[rustfmt::skip]
pub const NEAR: &[Piece] = &[
    (0.0, 0.5, &[0.7910171621397194, -0.1732261333605878, 0.031042454752975915, -0.004215445624073123, 0.00045492588429565787, -4.058180375969387e-05, 3.080545457545039e-06, -2.033645834547233e-07, 1.1872640970564222e-08, -6.211444172660374e-10, 2.943470612609178e-11, -1.2746196475087183e-12, 5.08119564232653e-14, -1.8764775020170843e-15, 6.454436240983603e-17, -2.0775353837209353e-18, 6.283478851585931e-20, -1.7922240601088475e-21, 4.836487786451911e-23, -1.2384321723171e-24, 3.016841999127318e-26, -7.008059912625654e-28], 2.1e-28),
    (0.5, 1.0, &[0.5411652192034954, -0.08781935647466008, 0.014042847730962727, -0.0018019675978191128, 0.00018813896963485038, -1.6426900596387686e-05, 1.2284620856020714e-06, -8.021283501608791e-08, 4.643820864586302e-09, -2.413530296214317e-10, 1.1376380091605614e-11, -4.904752116146815e-13, 1.9480672010326355e-14, -7.171717924966896e-16, 2.46019831888027e-17, -7.900329406627472e-19, 2.3845520410014398e-20, -6.789098341516435e-22, 1.8291502677639545e-23, -4.676962875483422e-25, 1.1378337045538155e-26, -2.6400486189291274e-28], 2.1e-28),
    (1.0, 1.5, &[0.4098361493857494, -0.04836110001293935, 0.0066804812698850365, -0.0007951168806420272, 7.948044905395256e-05, -6.750371342792189e-06, 4.953860998887588e-07, -3.1910332864991335e-08, 1.8286868245837772e-09, -9.429429172588828e-11, 4.416755975885299e-12, -1.8944838415944184e-13, 7.492600264059537e-15, -2.7485158593534447e-16, 9.399827379780007e-18, -3.010589711101014e-19, 9.066026177497146e-21, -2.5760053120284502e-22, 6.92801315646514e-24, -1.7686093959692566e-25, 4.296616909495572e-27, -9.956354676332495e-29], 2.1e-28),
    (1.5, 2.0, &[0.33455865891245506, -0.029094738565129674, 0.0033776184867835546, -0.0003650654626374249, 3.448515967798027e-05, -2.8263587908851032e-06, 2.0251733017695846e-07, -1.2826534507321765e-08, 7.25941232686313e-10, -3.707755754897654e-11, 1.7237698180048108e-12, -7.349419100391023e-14, 2.8923505634182093e-15, -1.0566447483818967e-16, 3.60112938102659e-18, -1.1499421305696215e-19, 3.453991732657271e-21, -9.792030955756926e-23, 2.6282894894446323e-24, -6.697799656906501e-26, 1.6245923894407684e-27, -3.7592842343121556e-29], 2.1e-28),
    (2.0, 2.5, &[0.2874319388973915, -0.01905383072245028, 0.0018298935693960372, -0.00017589339556131064, 1.546513368874484e-05, -1.2111172399168385e-06, 8.419080776434791e-08, -5.220763172969876e-09, 2.90974821805445e-10, -1.4690772039980653e-11, 6.768960619561832e-13, -2.865531494317015e-14, 1.1212347411957485e-15, -4.076667936861099e-17, 1.3838232136053555e-18, -4.403974951622374e-20, 1.318939090211397e-21, -3.7297370440606296e-23, 9.988893978930926e-25, -2.5405527872448792e-26, 6.151582644845846e-28, -1.4212606571711836e-29], 2.1e-28),
    (2.5, 3.0, &[0.25545017851355245, -0.01343288928041973, 0.0010659652588336426, -8.961836245742183e-05, 7.218270220622752e-06, -5.339187912871654e-07, 3.5726147109621187e-08, -2.157635226242764e-09, 1.179920522564497e-10, -5.873749425866414e-12, 2.6773543230874334e-13, -1.123858035949566e-14, 4.367708785313773e-16, -1.57925684291895e-17, 5.336137444550285e-19, -1.6916326986663923e-20, 5.049510989015906e-22, -1.423851733806877e-23, 3.8038809146559173e-25, -9.653677826114721e-27, 2.3330076124394237e-28, -5.3809587510372474e-30], 2.1e-28),
    (3.0, 3.5, &[0.23223175875812105, -0.01005017610624625, 0.0006660915810506391, -4.8537497412515094e-05, 3.5301551278421876e-06, -2.435611342210402e-07, 1.554337482067921e-08, -9.083516345111357e-10, 4.852096331606441e-11, -2.37405247355418e-12, 1.0680874014319181e-13, -4.4382467652057985e-15, 1.711052543999762e-16, -6.146670402791606e-18, 2.065820401977265e-19, -6.519787662235958e-21, 1.9388196462742924e-22, -5.4494210643512035e-24, 1.4517785496028518e-25, -3.675438534505788e-27, 8.863457724401144e-29, -2.040439602178503e-30], 2.1e-28),
    (3.5, 4.0, &[0.2144570512300487, -0.007872157574789453, 0.00044330255260660573, -2.798478131592688e-05, 1.8188467816302194e-06, -1.1564528217372685e-07, 6.967610838199854e-09, -3.9103484431180855e-10, 2.0292025563689332e-11, -9.720652812298104e-13, 4.304487823477569e-14, -1.7669961243903916e-15, 6.747378817215773e-17, -2.405401161128273e-18, 8.034001222150144e-20, -2.5225034416051074e-21, 7.468883970439956e-23, -2.091569131474179e-24, 5.55458857729192e-26, -1.402403834185351e-27, 3.3738752125056417e-29, -7.75059727852993e-31], 2.1e-28),
    (4.0, 4.5, &[0.20028786955225708, -0.0063846319266243155, 0.00031123635043725663, -1.7132249158962283e-05, 9.902801859687644e-07, -5.744874491251242e-08, 3.2346271826762125e-09, -1.728690705650159e-10, 8.659407366183334e-12, -4.042342791808746e-13, 1.755844291811018e-14, -7.102669057439728e-16, 2.681391531283588e-17, -9.472807160368715e-19, 3.140852922659383e-20, -9.802638300078922e-22, 2.888018705514135e-23, -8.053608657124231e-25, 2.131149405640509e-26, -5.364078242039089e-28, 1.2870242743776363e-29, -2.949666775860525e-31], 2.1e-28),
    (4.5, 5.0, &[0.18864068614599086, -0.005317628826961318, 0.00022828766175252951, -1.1073636842870096e-05, 5.697447562147661e-07, -2.996671673835448e-08, 1.562563617627151e-09, -7.883451805620328e-11, 3.784826201318833e-12, -1.7123262096043444e-13, 7.265918148717718e-15, -2.887555451855938e-16, 1.0752912742656858e-17, -3.7581211295151974e-19, 1.235377050223082e-20, -3.8287186285994515e-22, 1.1215038039442193e-23, -3.1123811589160987e-25, 8.202392050872405e-27, -2.0573261790247058e-28, 4.921341568368154e-30, -1.1249354646467707e-31], 2.1e-28),
    (5.0, 5.5, &[0.1788382378268869, -0.0045212591175187306, 0.00017345048558913527, -7.502522234835979e-06, 3.4539302985888127e-07, -1.643662338298131e-08, 7.884190396802678e-10, -3.724803925753731e-11, 1.7011249405505532e-12, -7.413117988473342e-14, 3.0583286097517806e-15, -1.18975870366507e-16, 4.35843006510897e-18, -1.5038609980830477e-19, 4.8934499174531774e-21, -1.5041885441732036e-22, 4.376527760533631e-24, -1.2078110096849207e-25, 3.1681933828769983e-27, -7.914906320545731e-29, 1.8868748289532067e-30, -4.300343303948382e-32], 2.1e-28),
    (5.5, 6.0, &[0.17043454776436387, -0.003907613519989514, 0.0001355767838864774, -5.288862499585175e-06, 2.1954543070238534e-07, -9.470233324508339e-09, 4.164014930312622e-10, -1.8301257894290473e-11, 7.893696001234582e-13, -3.2917838475646256e-14, 1.313294878372965e-15, -4.9801844304690804e-17, 1.7889190889172952e-18, -6.079001625493453e-20, 1.9543420619836493e-21, -5.949637813816866e-23, 1.71754173198199e-24, -4.709421859035622e-26, 1.2286771267655826e-27, -3.055595495129767e-29, 7.256192759376842e-31, -1.6482358495402563e-32], 2.1e-28),
    (6.0, 6.5, &[0.16312255113296784, -0.0034224324105231753, 0.00010844399517641818, -3.853677014824972e-06, 1.4546995739612827e-07, -5.714164824401528e-09, 2.3024269065846018e-10, -9.374271805699883e-12, 3.794995405985989e-13, -1.5046891881553142e-14, 5.77200236238439e-16, -2.1235387896825945e-17, 7.451656154780916e-19, -2.4865438600976855e-20, 7.880456702166496e-22, -2.3718711065482514e-23, 6.78439534240138e-25, -1.84630024788255e-26, 4.787019066208957e-28, -1.1842815794754218e-29, 2.7999290704390678e-31, -6.33599386473198e-33], 2.1e-28),
    (6.5, 7.0, &[0.1566827911681762, -0.003030662284949206, 8.840565443924882e-05, -2.8862874932395605e-06, 9.988939156264573e-08, -3.5949153633629076e-09, 1.3305992604335316e-10, -5.010576805841555e-12, 1.895324153421729e-13, -7.1038644120102395e-15, 2.605019663489048e-16, -9.250709136344779e-18, 3.157774379666576e-19, -1.0312516259215277e-20, 3.213375791632179e-22, -9.542413267748814e-24, 2.7001299738106306e-25, -7.283827878378055e-27, 1.8749183327829238e-28, -4.610610302467381e-30, 1.0845539999506853e-31, -2.443709660285622e-33], 2.1e-28),
    (7.0, 7.5, &[0.15095349002867584, -0.0027087427680920527, 7.322655859065277e-05, -2.21218021507185e-06, 7.070765245102344e-08, -2.346639491379305e-09, 8.012084183296496e-11, -2.792779100296881e-12, 9.847322576203479e-14, -3.473304124067508e-15, 1.21108280747751e-16, -4.129571847610762e-18, 1.3650115708702352e-19, -4.346226752854022e-21, 1.3274797884642213e-22, -3.880034971750046e-24, 1.0840411327052225e-25, -2.894388469187627e-27, 7.387999670590103e-29, -1.8041842072555317e-30, 4.2193582430903946e-32, -9.460407107210419e-34], 2.1e-28),
    (7.5, 8.0, &[0.1458122743089143, -0.0024402935571437995, 6.148024380071157e-05, -1.728969705199222e-06, 5.136428464426707e-08, -1.5818019647648274e-09, 5.0069957998703126e-11, -1.6198688008674561e-12, 5.322694276546036e-14, -1.7617191920490983e-15, 5.815217745291026e-17, -1.8946155684043694e-18, 6.035716191644546e-20, -1.8659685513031176e-21, 5.567335807869922e-23, -1.5972057089411262e-24, 4.396367819489193e-26, -1.1597900339103183e-27, 2.9315164308200765e-29, -7.1013783070456285e-31, 1.6496611050592858e-32, -3.677995389056407e-34], 2.1e-28),
];
#[rustfmt::skip]
pub const FAR: &[Piece] = &[
    (3.11114501953125, 4.0, &[0.40487860423086164, 0.0007991339746572927, 8.38474042362951e-06, 2.0883494605170574e-07, 1.0079848109644024e-08, 5.213880983393346e-10, -1.9408418653866324e-11, -7.946406631657607e-12, -2.6784185148022855e-13, 8.955429568281553e-14, 3.3592637937504418e-15, -1.2242988213542198e-15, 7.175294930252727e-18, 1.5801960207041682e-17, -1.224918555283345e-18, -1.1218738012705667e-19, 2.728262187216152e-20, -1.26022261233408e-21, -2.3922155161668298e-22, 4.5958911659623333e-23, -2.3784188386689544e-24, -3.386409429047239e-25, 7.997806064242945e-26, -6.467445868025367e-27], 6.5e-21),
    (2.4197998046875, 3.11114501953125, &[0.4034833276099235, 0.000599757302836071, 4.496355837518761e-06, 7.222685912100499e-08, 2.1019031026845945e-09, 1.0448854450873973e-10, 6.441235598574047e-12, 1.0578620442508449e-13, -6.081625009795885e-14, -7.324123459755383e-15, 2.9200217668351852e-16, 1.0431331764027815e-16, -2.5690829939122967e-18, -1.3604815532124714e-18, 6.916933071781901e-20, 1.5647460026141336e-20, -1.7850078343299954e-21, -9.968717845232538e-23, 3.232900056002506e-23, -1.3398778887447555e-24, -3.3051283815518985e-25, 5.211620173370407e-26, -8.865256739724805e-28, -6.433691081319985e-28], 6.5e-21),
    (1.882080078125, 2.4197998046875, &[0.40243091089167904, 0.00045454865829349685, 2.508148594573217e-06, 2.820151552464599e-08, 5.239185718477383e-10, 1.5048711659218828e-11, 6.677420281172549e-13, 4.2352855734127906e-14, 2.5541781963552713e-15, -2.905276629459616e-17, -3.630488176166401e-17, -3.651707083137569e-18, 1.7880773574137738e-19, 5.826182185647787e-20, -4.45466432712772e-22, -7.965137338553153e-22, 7.625323076665723e-24, 1.0866260407534569e-23, -4.263605298718517e-25, -1.3451032583389495e-25, 1.293150181903035e-26, 1.114090806388089e-27, -2.6129799835268367e-28, 4.327866825240054e-30], 6.5e-21),
    (1.4638671875, 1.882080078125, &[0.40163060915358684, 0.00034678992565625934, 1.4317466280080434e-06, 1.170925889164954e-08, 1.5190835233289269e-10, 2.8472758199771747e-12, 7.400410579736903e-14, 2.6560417495031984e-15, 1.3426421457918392e-16, 9.080453065429193e-18, 6.150318026744115e-19, 1.1185679516127774e-20, -6.131374741547707e-21, -9.885096371781277e-22, -2.5920335077934304e-23, 1.1187501557435349e-23, 1.0762240547925629e-24, -1.0488094317836742e-25, -1.8058143077222844e-26, 1.1993365080235682e-27, 2.560042503282652e-28, -1.9622123919016686e-29, -3.220586699428923e-30, 3.805901624837898e-31], 6.5e-21),
    (1.13861083984375, 1.4638671875, &[0.40101857106338484, 0.00026583337462920536, 8.298894302833549e-07, 5.038912025041167e-09, 4.743835729145493e-11, 6.262566997028154e-13, 1.0986728521714526e-14, 2.485651905799611e-16, 7.15128695843205e-18, 2.6215007651105835e-19, 1.2496949700808643e-20, 7.841909531875131e-22, 5.898243231292097e-23, 3.896282105269311e-24, 1.5444793685497177e-26, -5.0091223315544603e-26, -7.717488877821032e-27, -2.838729295377478e-28, 7.732294240284753e-29, 1.0676148809813688e-29, -3.41658346918783e-31, -1.6965144818094323e-31, -2.0692273836680688e-33, 2.362526382866988e-33], 6.4e-21),
    (0.8856201171875, 1.13861083984375, &[0.4005485624446498, 0.00020451155426693817, 4.863502795387336e-07, 2.2212488950837406e-09, 1.550057944793144e-11, 1.490692979490084e-13, 1.86541632924906e-15, 2.931676847188766e-17, 5.655517460812018e-19, 1.3198054325691994e-20, 3.6956233510325915e-22, 1.2393670173890931e-23, 5.010310978328979e-25, 2.4865499890822356e-26, 1.54621108515288e-27, 1.1684231950291957e-28, 9.173950168693763e-30, 4.945112250390722e-31, -2.711749579693298e-32, -1.1774877519568655e-32, -1.4752539069600255e-33, -3.7472773532182616e-35, 1.6441162595293807e-35, 2.253094795354694e-36], 6.5e-21),
    (0.6888427734375, 0.8856201171875, &[0.40018650569069053, 0.0001577411053391745, 2.872380040073604e-07, 9.954768968691706e-10, 5.218636159704974e-12, 3.727966126821855e-14, 3.4211780727590525e-16, 3.885486810664595e-18, 5.3244246208816685e-20, 8.647346275806142e-22, 1.6431945960290895e-23, 3.619984099977496e-25, 9.188184781606708e-27, 2.6772222872445464e-28, 8.946504218063873e-30, 3.4368196001697884e-31, 1.5290265716334783e-32, 7.998610560617847e-34, 5.01838034274181e-35, 3.7650378553275777e-36, 3.126914921182273e-37, 2.360905926989656e-38, 8.277454773725175e-40, -1.6913034608420427e-40], 6.4e-21),
    (0.53582763671875, 0.6888427734375, &[0.3999070063385221, 0.00012187350872215025, 1.7053285645157893e-07, 4.5115719415956536e-10, 1.7925846778709812e-12, 9.63048991840532e-15, 6.590587679530631e-17, 5.529968935617683e-19, 5.541258293250762e-21, 6.505720177636836e-23, 8.822155332010116e-25, 1.366753679055666e-26, 2.3985815220600418e-28, 4.736994140437125e-30, 1.0474531448182741e-31, 2.583520480047143e-33, 7.089289009022557e-35, 2.1610369533138794e-36, 7.315731961868639e-38, 2.7533255867659106e-39, 1.1554236576839232e-40, 5.438258498717965e-42, 2.901560496587082e-43, 1.7833806451103964e-44], 6.4e-21),
    (0.41680908203125, 0.53582763671875, &[0.39969087339910536, 9.432756903171276e-05, 1.0173806656025762e-07, 2.0645013618541925e-10, 6.259168577380333e-13, 2.551709886314592e-15, 1.3173222266969705e-17, 8.285886618014295e-20, 6.182149301472429e-22, 5.365189914494613e-24, 5.335975471059626e-26, 6.011455730396035e-28, 7.600812295807863e-30, 1.0705310996769067e-31, 1.669302246765034e-33, 2.8673212462885846e-35, 5.402791587570438e-37, 1.1129583881782869e-38, 2.4995168721457392e-40, 6.106545328249233e-42, 1.620212146991958e-43, 4.663133591562323e-45, 1.454871863087904e-46, 4.9198677500483086e-48], 6.4e-21),
    (0.32421875, 0.41680908203125, &[0.39952348426895035, 7.310208502897623e-05, 6.091297035480083e-08, 9.514190515522554e-11, 2.2117033665772034e-13, 6.885581731070753e-16, 2.7030999730765863e-18, 1.2871836749370143e-20, 7.236763070632931e-23, 4.709311916151893e-25, 3.4938160996431364e-27, 2.920093954028846e-29, 2.723220519599393e-31, 2.8115437279179568e-33, 3.192605756400107e-35, 3.965498847718243e-37, 5.3626260091327404e-39, 7.864195350080966e-41, 1.2463584113411234e-42, 2.12845675305047e-44, 3.9067747626725845e-46, 7.690529083328804e-48, 1.6205687761211033e-49, 3.649757714465001e-51], 6.4e-21),
    (0.252197265625, 0.32421875, &[0.3993937116508813, 5.669475595080615e-05, 3.6551011755135644e-08, 4.4047495754370366e-11, 7.87731129034976e-14, 1.8810131933265648e-16, 5.646319141439682e-19, 2.0492684021833942e-21, 8.752020811111483e-24, 4.311438016733997e-26, 2.4126878761507973e-28, 1.5153279935405303e-30, 1.057805438888283e-32, 8.141653759217352e-35, 6.862956598240775e-37, 6.299861497236937e-39, 6.266944507921849e-41, 6.727552639119771e-43, 7.76501700653356e-45, 9.60542145138358e-47, 1.269843046027855e-48, 1.7896002451915472e-50, 2.6826836598895703e-52, 4.269057016476089e-54], 6.4e-21),
    (0.1961669921875, 0.252197265625, &[0.3992930255935971, 4.4005807352509414e-05, 2.1980516676866657e-08, 2.0478726180705997e-11, 2.8252105927020962e-14, 5.192525357616594e-17, 1.1969138670947432e-19, 3.3279469946465046e-22, 1.0861923720375439e-24, 4.078985783694739e-27, 1.735570147264722e-29, 8.266182792473929e-32, 4.363883530801297e-34, 2.5329357683738926e-36, 1.6054758755801688e-38, 1.1048436545711206e-40, 8.21403498275929e-43, 6.568967467731518e-45, 5.629662829511771e-47, 5.153074329711683e-49, 5.023036859398081e-51, 5.200414233210727e-53, 5.7049973996498314e-55, 6.617527112919096e-57], 6.4e-21),
    (0.152587890625, 0.1961669921875, &[0.3992148624016983, 3.416610395381033e-05, 1.3231106824008206e-08, 9.541634260702441e-12, 1.0172012588407858e-14, 1.4422186192088488e-17, 2.5601000609700192e-20, 5.471943951706426e-23, 1.3704296284090194e-25, 3.941702447583054e-28, 1.2821390382629733e-30, 4.6593038393900285e-33, 1.8730763130940057e-35, 8.262220025954641e-38, 3.9716465722361885e-40, 2.0684501852508134e-42, 1.1612876785331162e-44, 6.997751871249285e-47, 4.50855845944042e-49, 3.095330179161153e-51, 2.25765797736227e-53, 1.7446984600257558e-55, 1.425083508094054e-57, 1.227625397831559e-59], 6.4e-21),
    (0.11871337890625, 0.152587890625, &[0.399154180353302, 2.6521197792910884e-05, 7.963773617299546e-09, 4.447580539661727e-12, 3.667171745358509e-15, 4.0161991365161845e-18, 5.499568394591849e-21, 9.055649951136233e-24, 1.7448200422964774e-26, 3.8556163249072554e-29, 9.621695899468047e-32, 2.678702963693381e-34, 8.237895389758528e-37, 2.7757129696341104e-39, 1.0176871345420712e-41, 4.036383291481958e-44, 1.7231261891708254e-46, 7.882794768060438e-49, 3.849516006044407e-51, 1.9999169237636935e-53, 1.101987251521942e-55, 6.422673398829131e-58, 3.9496870073731375e-60, 2.5571184440362405e-62], 6.3e-21),
    (0.09234619140625, 0.11871337890625, &[0.39910704079006687, 2.0621511985144494e-05, 4.810700219962835e-09, 2.085228983920698e-12, 1.3331386646190792e-15, 1.1309464289510969e-18, 1.1983993882652383e-21, 1.5254465803373459e-24, 2.269788145308424e-27, 3.86930759914047e-30, 7.441110307548079e-33, 1.5947535706421157e-35, 3.771365806866332e-38, 9.76101199377852e-41, 2.74593966302552e-43, 8.347143201140413e-46, 2.7279559425053054e-48, 9.542779796746387e-51, 3.5593300175791414e-53, 1.4106778041140932e-55, 5.922780346935447e-58, 2.6270628835302375e-60, 1.2279709330460914e-62, 6.035383417297625e-65], 6.4e-21),
    (0.07183837890625, 0.09234619140625, &[0.399070395516801, 1.6025665455649e-05, 2.903464278578516e-09, 9.766722663431139e-13, 4.84204346182581e-16, 3.1828927965222864e-19, 2.611400652909555e-22, 2.571716803727748e-25, 2.9581814203981903e-28, 3.89531014120336e-31, 5.781873291876384e-34, 9.556435168535987e-37, 1.741480599537375e-39, 3.470365645060572e-42, 7.510539144242632e-45, 1.7549047962074426e-47, 4.404746443688954e-50, 1.1823743947019857e-52, 3.3811928818045954e-55, 1.0265317689299749e-57, 3.2986069497885625e-60, 1.1187922526815725e-62, 3.995313351597889e-65, 1.4988464961436215e-67], 6.4e-21),
    (0.055908203125, 0.07183837890625, &[0.3990419305040262, 1.2440500547808822e-05, 1.7488031015297892e-09, 4.561672216625998e-13, 1.7526737593105214e-16, 8.923520071893477e-20, 5.66724914512957e-23, 4.317650993194564e-26, 3.83984717025947e-29, 3.90690815726332e-32, 4.478134704439046e-35, 5.712094850955088e-38, 8.028244602428728e-41, 1.233131097475486e-43, 2.0557239886287504e-46, 3.697707347782813e-49, 7.140173332324683e-52, 1.4735784021038742e-54, 3.237710479410947e-57, 7.547578321584318e-60, 1.8610077170623116e-62, 4.840190609845138e-65, 1.3245553818553225e-67, 3.805321243303673e-70], 6.1e-21),
    (0.04351806640625, 0.055908203125, &[0.39901981958312793, 9.67111203522493e-06, 1.0564481837648457e-09, 2.140450282587747e-13, 6.3849858643709e-17, 2.5227591272664247e-20, 1.2427806382647725e-23, 7.34096378880114e-27, 5.0594411786132596e-30, 3.9875254188745135e-33, 3.538722760480483e-36, 3.493174405073616e-39, 3.797660544481266e-42, 4.5099274340530484e-45, 5.810088921746856e-48, 8.072349011284384e-51, 1.2034169865974882e-53, 1.9165051886495417e-56, 3.24782269484102e-59, 5.836687581528016e-62, 1.1089124413771307e-64, 2.2211931178418926e-67, 4.6789888530382285e-70, 1.0342207614263177e-72], 6.0e-21),
];
#[rustfmt::skip]
pub const ASYM: &[Piece] = &[
    (0.0, 0.04351806640625, &[0.3989422804014327, 0.0015583682828180965, 2.7393192471411852e-05, 8.917054840954378e-07, 4.26695007037856e-08, 2.7001793414114324e-09, 2.1270944030649957e-10, 2.0060209493191087e-11], 1.5e-22),
];
