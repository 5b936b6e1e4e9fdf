------------------------------ MODULE NuclideData ------------------------------
(* Reference data: atomic masses in 10^-5 g/mol by identifier, the chemical elements, and the
   seven-group benchmark set (absorption, fission, neutrons per fission, transport and
   scattering from each group to each group). *)
MassTable == <<
  <<1001, 100783>>, <<1002, 201410>>, <<1003, 301550>>, <<1006, 100783>>, <<1040, 100783>>, <<2003, 301493>>,
  <<2004, 400260>>, <<3006, 601507>>, <<3007, 701600>>, <<4009, 901220>>, <<5000, 1081100>>, <<5010, 1001290>>,
  <<5011, 1100930>>, <<6000, 1200110>>, <<6001, 1200110>>, <<7014, 1400310>>, <<8001, 1599730>>, <<8016, 1599490>>,
  <<9019, 1899820>>, <<11023, 2298950>>, <<12000, 2430510>>, <<13027, 2698150>>, <<14000, 2808590>>, <<15031, 3097410>>,
  <<16000, 3206430>>, <<17000, 3545270>>, <<19000, 3909860>>, <<20000, 4007800>>, <<22000, 4789330>>, <<23000, 5094160>>,
  <<24000, 5199590>>, <<24050, 4994610>>, <<24052, 5194020>>, <<24053, 5294080>>, <<24054, 5393940>>, <<25055, 5493800>>,
  <<26000, 5584470>>, <<26054, 5393940>>, <<26056, 5593450>>, <<26057, 5693510>>, <<26058, 5793370>>, <<27059, 5893320>>,
  <<28000, 5869360>>, <<28058, 5793570>>, <<28060, 5993080>>, <<28061, 6093140>>, <<28062, 6192800>>, <<28064, 6392820>>,
  <<29063, 6292960>>, <<29065, 6492780>>, <<35581, 8091630>>, <<36582, 8191350>>, <<36583, 8291430>>, <<36584, 8391150>>,
  <<36585, 8491250>>, <<36586, 8591060>>, <<38589, 8890780>>, <<38590, 8990780>>, <<39589, 8890590>>, <<39590, 8990720>>,
  <<39591, 9090730>>, <<40000, 9122370>>, <<40001, 9122370>>, <<40090, 8990470>>, <<40091, 9090560>>, <<40092, 9190500>>,
  <<40094, 9390630>>, <<40096, 9590830>>, <<40591, 9090560>>, <<40593, 9290640>>, <<40595, 9490800>>, <<40596, 9590830>>,
  <<41093, 9290320>>, <<41595, 9490680>>, <<42000, 9593760>>, <<42095, 9490590>>, <<42595, 9490590>>, <<42596, 9590470>>,
  <<42597, 9690600>>, <<42598, 9790540>>, <<42599, 9890770>>, <<42600, 9990730>>, <<43599, 9890770>>, <<44600, 9990410>>,
  <<44601, 10090600>>, <<44602, 10190500>>, <<44603, 10290400>>, <<44604, 10390300>>, <<44605, 10491100>>, <<44606, 10590700>>,
  <<45103, 10290500>>, <<45603, 10290400>>, <<45605, 10491100>>, <<46604, 10390400>>, <<46605, 10490500>>, <<46606, 10590300>>,
  <<46607, 10690500>>, <<46608, 10790400>>, <<47107, 10690500>>, <<47109, 10890500>>, <<47609, 10890500>>, <<47611, 11090600>>,
  <<47710, 10990600>>, <<48000, 11241100>>, <<48110, 10990300>>, <<48111, 11090400>>, <<48112, 11190300>>, <<48113, 11290000>>,
  <<48114, 11390300>>, <<48610, 10990300>>, <<48611, 11090400>>, <<48613, 11290000>>, <<49000, 11481900>>, <<49113, 11290400>>,
  <<49115, 11490400>>, <<49615, 11490400>>, <<50000, 11871000>>, <<50112, 11190400>>, <<50114, 11390300>>, <<50115, 11490300>>,
  <<50116, 11590200>>, <<50117, 11690300>>, <<50118, 11790200>>, <<50119, 11890300>>, <<50120, 11990200>>, <<50122, 12190300>>,
  <<50124, 12390500>>, <<50125, 12490800>>, <<51000, 12176300>>, <<51121, 12090900>>, <<51123, 12290600>>, <<51621, 12090900>>,
  <<51625, 12490500>>, <<51627, 12690700>>, <<52632, 13190800>>, <<52727, 12690500>>, <<52729, 12890700>>, <<53627, 12690400>>,
  <<53629, 12890500>>, <<53631, 13090600>>, <<53635, 13490900>>, <<54628, 12790300>>, <<54630, 12990400>>, <<54631, 13090600>>,
  <<54632, 13190300>>, <<54633, 13290600>>, <<54634, 13391000>>, <<54635, 13490700>>, <<54636, 13590700>>, <<55633, 13290600>>,
  <<55634, 13390700>>, <<55635, 13490600>>, <<55636, 13590600>>, <<55637, 13690700>>, <<56634, 13390400>>, <<56637, 13690600>>,
  <<56640, 13991000>>, <<57639, 13890300>>, <<57640, 13991000>>, <<58640, 13990500>>, <<58641, 14091100>>, <<58642, 14190900>>,
  <<58643, 14291300>>, <<58644, 14391400>>, <<59641, 14090700>>, <<59643, 14291100>>, <<60642, 14190800>>, <<60643, 14291000>>,
  <<60644, 14391000>>, <<60645, 14491300>>, <<60646, 14591300>>, <<60647, 14691600>>, <<60648, 14791700>>, <<60650, 14992100>>,
  <<61647, 14691500>>, <<61648, 14791700>>, <<61649, 14891800>>, <<61651, 15092200>>, <<61748, 14792100>>, <<62152, 15192000>>,
  <<62153, 15292200>>, <<62647, 14691500>>, <<62648, 14791500>>, <<62649, 14891700>>, <<62650, 14991700>>, <<62651, 15091900>>,
  <<62652, 15192000>>, <<62653, 15292200>>, <<62654, 15392200>>, <<63151, 15091600>>, <<63152, 15192200>>, <<63153, 15292200>>,
  <<63154, 15392200>>, <<63155, 15492100>>, <<63156, 15592500>>, <<63157, 15692500>>, <<63651, 15091600>>, <<63653, 15292200>>,
  <<63654, 15392200>>, <<63655, 15492100>>, <<63656, 15592500>>, <<63657, 15692500>>, <<64152, 15192000>>, <<64154, 15392100>>,
  <<64155, 15492300>>, <<64156, 15592300>>, <<64157, 15692400>>, <<64158, 15792400>>, <<64160, 15992700>>, <<64654, 15392100>>,
  <<64655, 15492300>>, <<64656, 15592300>>, <<64657, 15692400>>, <<64658, 15792400>>, <<64660, 15992700>>, <<65159, 15892500>>,
  <<65160, 15992700>>, <<65161, 16092800>>, <<65659, 15892500>>, <<65660, 15992700>>, <<65661, 16092800>>, <<66160, 15992500>>,
  <<66161, 16092600>>, <<66162, 16192700>>, <<66163, 16292900>>, <<66164, 16392900>>, <<66660, 15992500>>, <<66661, 16092600>>,
  <<66662, 16192700>>, <<66663, 16292900>>, <<66664, 16392900>>, <<67165, 16493000>>, <<67665, 16493000>>, <<68162, 16192900>>,
  <<68164, 16392900>>, <<68166, 16593000>>, <<68167, 16693200>>, <<68168, 16793000>>, <<68170, 16993600>>, <<71176, 17594100>>,
  <<72174, 17394000>>, <<72176, 17594100>>, <<72177, 17694300>>, <<72178, 17794400>>, <<72179, 17894600>>, <<72180, 17994700>>,
  <<73181, 18095400>>, <<73182, 18195000>>, <<74000, 18384600>>, <<74182, 18195300>>, <<74183, 18295200>>, <<74184, 18395000>>,
  <<74186, 18595800>>, <<77191, 19096000>>, <<77193, 19296300>>, <<79197, 19696600>>, <<82206, 20597400>>, <<82207, 20697600>>,
  <<82208, 20797700>>, <<83209, 20898000>>, <<90230, 23003600>>, <<90232, 23203800>>, <<91231, 23103600>>, <<91232, 23203800>>,
  <<91233, 23304000>>, <<91234, 23404300>>, <<92232, 23203700>>, <<92233, 23304000>>, <<92234, 23404100>>, <<92235, 23504400>>,
  <<92236, 23604600>>, <<92237, 23704900>>, <<92238, 23805100>>, <<93237, 23704800>>, <<93238, 23805100>>, <<93239, 23905300>>,
  <<94236, 23604600>>, <<94238, 23804900>>, <<94239, 23905200>>, <<94240, 24005400>>, <<94241, 24104900>>, <<94242, 24205800>>,
  <<95241, 24105700>>, <<95242, 24205900>>, <<95243, 24306100>>, <<95342, 24205900>>, <<96242, 24205800>>, <<96243, 24306100>>,
  <<96244, 24406300>>, <<96245, 24506500>>, <<96246, 24606700>>, <<96247, 24707100>>, <<96248, 24807200>>, <<97249, 24908000>>,
  <<98249, 24908000>>, <<98250, 25007600>>, <<98251, 25108000>>, <<98252, 25208200>>>>
Elements == <<
  "H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar",
  "K", "Ca", "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr",
  "Rb", "Sr", "Y", "Zr", "Nb", "Mo", "Tc", "Ru", "Rh", "Pd", "Ag", "Cd", "In", "Sn", "Sb", "Te", "I", "Xe",
  "Cs", "Ba", "La", "Ce", "Pr", "Nd", "Pm", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu", "Hf",
  "Ta", "W", "Re", "Os", "Ir", "Pt", "Au", "Hg", "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac", "Th",
  "Pa", "U", "Np", "Pu", "Am", "Cm", "Bk", "Cf", "Es", "Fm", "Md", "No", "Lr", "Rf", "Db", "Sg", "Bh", "Hs",
  "Mt", "Ds", "Rg", "Cn", "Nh", "Fl", "Mc", "Lv", "Ts", "Og">>
C5G7 == <<
  [n |-> "UO2",
   a |-> <<"8.02480e-03", "3.71740e-03", "2.67690e-02", "9.62360e-02", "3.00200e-02", "1.11260e-01", "2.82780e-01">>,
   f |-> <<"7.21206e-03", "8.19301e-04", "6.45320e-03", "1.85648e-02", "1.78084e-02", "8.30348e-02", "2.16004e-01">>,
   nu |-> <<"2.78145e+00", "2.47443e+00", "2.43383e+00", "2.43380e+00", "2.43380e+00", "2.43380e+00", "2.43380e+00">>,
   tr |-> <<"1.77949e-01", "3.29805e-01", "4.80388e-01", "5.54367e-01", "3.11801e-01", "3.95168e-01", "5.64406e-01">>,
   ss |-> <<<<"1.27537e-01", "4.23780e-02", "9.43740e-06", "5.51630e-09", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "3.24456e-01", "1.63140e-03", "3.14270e-09", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "0.00000e+00", "4.50940e-01", "2.67920e-03", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "4.52565e-01", "5.56640e-03", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "1.25250e-04", "2.71401e-01", "1.02550e-02", "1.00210e-08">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "1.29680e-03", "2.65802e-01", "1.68090e-02">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "8.54580e-03", "2.73080e-01">>>>],
  [n |-> "MOX_4.3",
   a |-> <<"8.43390e-03", "3.75770e-03", "2.79700e-02", "1.04210e-01", "1.39940e-01", "4.09180e-01", "4.09350e-01">>,
   f |-> <<"7.62704e-03", "8.76898e-04", "5.69835e-03", "2.28872e-02", "1.07635e-02", "2.32757e-01", "2.48968e-01">>,
   nu |-> <<"2.85209e+00", "2.89099e+00", "2.85486e+00", "2.86073e+00", "2.85447e+00", "2.86415e+00", "2.86780e+00">>,
   tr |-> <<"1.78731e-01", "3.30849e-01", "4.83772e-01", "5.66922e-01", "4.26227e-01", "6.78997e-01", "6.82852e-01">>,
   ss |-> <<<<"1.28876e-01", "4.14130e-02", "8.22900e-06", "5.04050e-09", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "3.25452e-01", "1.63950e-03", "1.59820e-09", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "0.00000e+00", "4.53188e-01", "2.61420e-03", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "4.57173e-01", "5.53940e-03", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "1.60460e-04", "2.76814e-01", "9.31270e-03", "9.16560e-09">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "2.00510e-03", "2.52962e-01", "1.48500e-02">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "8.49480e-03", "2.65007e-01">>>>],
  [n |-> "MOX_7.0",
   a |-> <<"9.06570e-03", "4.29670e-03", "3.28810e-02", "1.22030e-01", "1.82980e-01", "5.68460e-01", "5.85210e-01">>,
   f |-> <<"8.25446e-03", "1.32565e-03", "8.42156e-03", "3.28730e-02", "1.59636e-02", "3.23794e-01", "3.62803e-01">>,
   nu |-> <<"2.88498e+00", "2.91079e+00", "2.86574e+00", "2.87063e+00", "2.86714e+00", "2.86658e+00", "2.87539e+00">>,
   tr |-> <<"1.81323e-01", "3.34368e-01", "4.93785e-01", "5.91216e-01", "4.74198e-01", "8.33601e-01", "8.53603e-01">>,
   ss |-> <<<<"1.30457e-01", "4.17920e-02", "8.51050e-06", "5.13290e-09", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "3.28428e-01", "1.64360e-03", "2.20170e-09", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "0.00000e+00", "4.58371e-01", "2.53310e-03", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "4.63709e-01", "5.47660e-03", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "1.76190e-04", "2.82313e-01", "8.72890e-03", "9.00160e-09">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "2.27600e-03", "2.49751e-01", "1.31140e-02">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "8.86450e-03", "2.59529e-01">>>>],
  [n |-> "MOX_8.7",
   a |-> <<"9.48620e-03", "4.65560e-03", "3.62400e-02", "1.32720e-01", "2.08400e-01", "6.58700e-01", "6.90170e-01">>,
   f |-> <<"8.67209e-03", "1.62426e-03", "1.02716e-02", "3.90447e-02", "1.92576e-02", "3.74888e-01", "4.30599e-01">>,
   nu |-> <<"2.90426e+00", "2.91795e+00", "2.86986e+00", "2.87491e+00", "2.87175e+00", "2.86752e+00", "2.87808e+00">>,
   tr |-> <<"1.83045e-01", "3.36705e-01", "5.00507e-01", "6.06174e-01", "5.02754e-01", "9.21028e-01", "9.55231e-01">>,
   ss |-> <<<<"1.31504e-01", "4.20460e-02", "8.69720e-06", "5.19380e-09", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "3.30403e-01", "1.64630e-03", "2.60060e-09", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "0.00000e+00", "4.61792e-01", "2.47490e-03", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "4.68021e-01", "5.43300e-03", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "1.85970e-04", "2.85771e-01", "8.39730e-03", "8.92800e-09">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "2.39160e-03", "2.47614e-01", "1.23220e-02">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "8.96810e-03", "2.56093e-01">>>>],
  [n |-> "Fission_Chamber",
   a |-> <<"5.11320e-04", "7.58130e-05", "3.16430e-04", "1.16750e-03", "3.39770e-03", "9.18860e-03", "2.32440e-02">>,
   f |-> <<"4.79002e-09", "5.82564e-09", "4.63719e-07", "5.24406e-06", "1.45390e-07", "7.14972e-07", "2.08041e-06">>,
   nu |-> <<"2.76283e+00", "2.46239e+00", "2.43380e+00", "2.43380e+00", "2.43380e+00", "2.43380e+00", "2.43380e+00">>,
   tr |-> <<"1.26032e-01", "2.93160e-01", "2.84250e-01", "2.81020e-01", "3.34460e-01", "5.65640e-01", "1.17214e+00">>,
   ss |-> <<<<"6.61659e-02", "5.90700e-02", "2.83340e-04", "1.46220e-06", "2.06420e-08", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "2.40377e-01", "5.24350e-02", "2.49900e-04", "1.92390e-05", "2.98750e-06", "4.21400e-07">>,
          <<"0.00000e+00", "0.00000e+00", "1.83425e-01", "9.22880e-02", "6.93650e-03", "1.07900e-03", "2.05430e-04">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "7.90769e-02", "1.69990e-01", "2.58600e-02", "4.92560e-03">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "3.73400e-05", "9.97570e-02", "2.06790e-01", "2.44780e-02">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "9.17420e-04", "3.16774e-01", "2.38760e-01">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "4.97930e-02", "1.09910e+00">>>>],
  [n |-> "Guide_Tube",
   a |-> <<"5.11320e-04", "7.58010e-05", "3.15720e-04", "1.15820e-03", "3.39750e-03", "9.18780e-03", "2.32420e-02">>,
   f |-> <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
   nu |-> <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
   tr |-> <<"1.26032e-01", "2.93160e-01", "2.84240e-01", "2.80960e-01", "3.34440e-01", "5.65640e-01", "1.17215e+00">>,
   ss |-> <<<<"6.61659e-02", "5.90700e-02", "2.83340e-04", "1.46220e-06", "2.06420e-08", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "2.40377e-01", "5.24350e-02", "2.49900e-04", "1.92390e-05", "2.98750e-06", "4.21400e-07">>,
          <<"0.00000e+00", "0.00000e+00", "1.83297e-01", "9.23970e-02", "6.94460e-03", "1.08030e-03", "2.05670e-04">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "7.88511e-02", "1.70140e-01", "2.58810e-02", "4.92970e-03">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "3.73330e-05", "9.97372e-02", "2.06790e-01", "2.44780e-02">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "9.17260e-04", "3.16765e-01", "2.38770e-01">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "4.97920e-02", "1.09912e+00">>>>],
  [n |-> "Moderator",
   a |-> <<"6.01050e-04", "1.57930e-05", "3.37160e-04", "1.94060e-03", "5.74160e-03", "1.50010e-02", "3.72390e-02">>,
   f |-> <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
   nu |-> <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00">>,
   tr |-> <<"1.59206e-01", "4.12970e-01", "5.90310e-01", "5.84350e-01", "7.18000e-01", "1.25445e+00", "2.65038e+00">>,
   ss |-> <<<<"4.44777e-02", "1.13400e-01", "7.23470e-04", "3.74990e-06", "5.31840e-08", "0.00000e+00", "0.00000e+00">>,
          <<"0.00000e+00", "2.82334e-01", "1.29940e-01", "6.23400e-04", "4.80020e-05", "7.44860e-06", "1.04550e-06">>,
          <<"0.00000e+00", "0.00000e+00", "3.45256e-01", "2.24570e-01", "1.69990e-02", "2.64430e-03", "5.03440e-04">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "9.10284e-02", "4.15510e-01", "6.37320e-02", "1.21390e-02">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "7.14370e-05", "1.39138e-01", "5.11820e-01", "6.12290e-02">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "2.21570e-03", "6.99913e-01", "5.37320e-01">>,
          <<"0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "0.00000e+00", "1.32440e-01", "2.48070e+00">>>>]>>
=============================================================================
