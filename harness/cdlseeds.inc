{"CDL2CROWS",0,-100,13,{88,88,79,80,112,128,44,84,108,109,48,88,112,114,79,80,84,85,44,84,96,100,76,92,96,112,96,104,80,94,72,92,88,100,48,100,84,96,82,96,86,105,86,103,114,122,112,112,113,121,97,97}},
{"CDL2CROWS",0,-100,13,{88,90,86,89,80,82,78,81,108,108,107,107,104,108,99,103,100,104,99,100,108,110,99,107,96,96,94,96,104,105,104,105,92,93,90,93,88,96,88,88,80,88,80,88,108,109,88,92,96,97,83,84}},
{"CDL2CROWS",1,-100,4,{112,116,104,112,84,89,80,89,119,123,89,93,97,97,86,86}},
{"CDL2CROWS",1,-100,4,{80,92,72,88,94,105,94,103,119,119,109,111,112,113,99,101}},
{"CDL2CROWS",2,-100,5,{92,100,52,96,112,112,98,100,82,107,80,103,117,117,98,106,109,109,86,88}},
{"CDL2CROWS",2,-100,5,{92,106,84,106,96,119,94,111,80,104,80,96,118,118,89,97,100,100,89,90}},
{"CDL2CROWS",3,-100,3,{84,106,80,104,113,121,103,105,106,106,92,94}},
{"CDL2CROWS",3,-100,3,{93,102,91,102,114,122,103,103,104,104,99,99}},
{"CDL2CROWS",4,-100,5,{100,108,86,88,100,111,92,111,88,112,88,108,117,119,108,110,112,116,85,89}},
{"CDL2CROWS",4,-100,5,{96,112,92,104,100,100,86,86,85,100,81,99,112,120,102,104,111,119,89,90}},
{"CDL2CROWS",5,-100,6,{92,109,88,108,96,102,96,100,108,110,48,88,80,136,78,96,112,116,84,100,104,104,88,88}},
{"CDL2CROWS",5,-100,6,{92,114,84,114,105,125,104,117,93,95,87,88,81,103,80,101,112,114,99,103,108,108,82,84}},
{"CDL2CROWS",6,-100,4,{100,110,96,110,89,104,81,102,118,120,109,109,110,118,93,101}},
{"CDL2CROWS",6,-100,4,{112,112,111,111,80,100,40,92,108,110,96,100,104,104,84,84}},
{"CDL2CROWS",7,-100,5,{100,100,98,100,104,105,103,103,83,95,82,91,108,108,94,96,99,101,84,88}},
{"CDL2CROWS",7,-100,5,{104,104,102,103,104,104,101,103,80,96,72,96,112,112,84,100,104,104,82,84}},
{"CDL3BLACKCROWS",0,-100,14,{88,100,80,100,108,124,88,88,88,96,88,96,100,101,80,96,100,112,60,104,100,116,72,80,104,116,104,108,108,148,96,104,88,112,80,108,84,108,84,104,104,119,100,118,104,104,88,90,100,108,86,86,96,100,78,80}},
{"CDL3BLACKCROWS",0,-100,14,{92,108,52,108,96,152,88,112,104,120,96,112,100,100,84,88,88,108,86,104,108,110,88,88,108,152,107,112,112,120,40,80,88,104,80,104,92,100,84,84,96,114,95,110,104,108,93,93,100,100,88,89,96,100,82,84}},
{"CDL3BLACKCROWS",1,-100,5,{104,144,99,100,84,98,76,96,114,122,92,93,111,119,86,87,96,97,80,84}},
{"CDL3BLACKCROWS",1,-100,5,{96,107,88,107,100,119,100,111,104,108,88,89,100,108,88,88,96,100,87,87}},
{"CDL3BLACKCROWS",2,-100,5,{100,100,90,90,100,108,100,108,104,104,92,93,100,102,87,87,96,97,84,86}},
{"CDL3BLACKCROWS",2,-100,5,{96,97,95,97,100,110,92,108,104,104,90,94,100,104,85,86,96,96,85,85}},
{"CDL3BLACKCROWS",3,-100,4,{104,115,104,115,100,108,92,92,96,100,84,84,88,128,76,80}},
{"CDL3BLACKCROWS",3,-100,4,{80,98,80,94,115,115,91,91,109,117,86,86,104,105,81,83}},
{"CDL3BLACKCROWS",4,-100,6,{115,117,84,92,102,102,81,83,108,148,108,108,119,121,94,94,104,106,92,92,96,100,80,80}},
{"CDL3BLACKCROWS",4,-100,6,{96,108,96,108,108,108,92,100,104,116,104,115,104,104,95,95,100,108,86,86,96,98,85,85}},
{"CDL3BLACKCROWS",5,-100,6,{100,120,92,112,100,101,91,91,91,120,91,118,114,118,101,102,109,117,94,96,104,108,80,81}},
{"CDL3BLACKCROWS",5,-100,6,{112,120,104,112,96,98,96,96,81,115,73,114,116,124,97,99,105,107,97,97,98,102,89,89}},
{"CDL3BLACKCROWS",6,-100,8,{80,90,78,88,104,104,92,96,112,128,80,96,100,128,96,112,111,114,109,112,115,116,90,91,104,112,81,81,93,93,80,80}},
{"CDL3BLACKCROWS",6,-100,8,{92,106,90,104,112,120,107,108,112,152,48,88,88,90,68,84,104,113,103,113,104,105,91,93,100,102,91,91,96,98,86,86}},
{"CDL3BLACKCROWS",7,-100,6,{100,108,86,86,100,104,83,85,106,119,105,118,107,107,83,85,104,112,83,83,96,104,80,81}},
{"CDL3BLACKCROWS",7,-100,6,{92,108,48,88,88,152,80,112,104,127,102,119,104,112,92,93,100,104,87,88,96,98,81,83}},
{"CDL3INSIDE",0,-100,13,{106,119,98,111,91,95,80,88,103,103,87,89,99,100,77,85,108,110,95,97,98,109,98,108,83,100,83,98,113,113,83,83,98,112,98,108,109,110,108,110,100,119,98,115,104,114,102,114,96,100,79,83}},
{"CDL3INSIDE",0,-100,13,{112,116,79,80,88,120,88,112,108,148,79,80,108,148,40,80,84,96,44,92,92,112,92,96,112,120,76,84,92,98,52,96,104,112,80,80,80,104,64,104,87,120,87,116,107,115,83,91,96,100,82,84}},
{"CDL3INSIDE",0,100,13,{100,100,79,80,112,114,84,88,84,100,68,100,108,116,68,108,92,110,76,108,92,92,64,80,108,124,88,92,84,120,84,104,96,112,95,96,96,136,92,92,100,102,84,84,96,136,88,96,88,116,87,116}},
{"CDL3INSIDE",0,100,13,{104,106,86,94,104,120,103,112,100,118,100,110,104,121,103,119,100,114,99,114,100,115,99,115,100,115,98,113,100,112,99,108,104,115,102,115,104,104,95,96,104,120,76,84,92,94,88,88,92,112,91,112}},
{"CDL3INSIDE",1,-100,4,{108,110,107,108,84,119,82,111,104,107,102,106,103,103,83,83}},
{"CDL3INSIDE",1,-100,4,{112,114,111,111,100,152,60,112,104,112,96,104,112,120,64,80}},
{"CDL3INSIDE",1,100,4,{112,114,111,111,100,102,81,81,91,91,83,87,116,121,116,117}},
{"CDL3INSIDE",1,100,4,{112,114,111,111,98,100,86,86,94,94,90,90,96,119,96,117}},
{"CDL3INSIDE",2,-100,5,{96,96,93,95,80,81,80,80,100,120,84,112,108,108,107,108,96,97,91,92}},
{"CDL3INSIDE",2,-100,5,{96,96,93,95,80,81,80,80,97,120,95,119,118,118,112,116,104,108,86,94}},
{"CDL3INSIDE",2,100,5,{104,112,103,108,112,112,87,88,100,101,79,80,89,97,81,81,80,118,80,118}},
{"CDL3INSIDE",2,100,5,{104,112,103,108,112,112,87,88,107,115,81,85,88,100,84,98,106,118,105,110}},
{"CDL3INSIDE",3,-100,3,{88,108,72,108,97,105,89,91,104,112,78,80}},
{"CDL3INSIDE",3,-100,3,{97,110,93,110,107,109,98,106,106,106,80,80}},
{"CDL3INSIDE",3,100,3,{104,104,89,90,92,92,84,92,84,119,82,119}},
{"CDL3INSIDE",3,100,3,{94,95,76,84,88,88,88,88,100,113,100,111}},
{"CDL3INSIDE",4,-100,6,{80,84,72,84,88,88,82,84,108,109,80,80,96,108,95,106,100,103,99,101,100,101,88,92}},
{"CDL3INSIDE",4,-100,6,{92,93,76,92,108,108,86,88,80,136,80,96,92,106,52,104,96,140,80,100,96,98,64,80}},
{"CDL3INSIDE",4,100,6,{92,128,90,112,100,102,72,88,84,92,82,84,107,107,92,96,102,104,94,98,101,118,100,110}},
{"CDL3INSIDE",4,100,6,{92,93,76,92,108,108,86,88,80,136,80,96,117,117,97,98,112,116,111,112,104,128,104,120}},
{"CDL3INSIDE",5,-100,6,{88,92,86,88,112,115,110,113,80,81,76,81,85,118,85,116,114,114,105,109,84,84,79,81}},
{"CDL3INSIDE",5,-100,6,{88,92,86,88,112,115,110,113,80,81,76,81,95,114,94,114,100,102,100,100,104,105,86,94}},
{"CDL3INSIDE",5,100,6,{100,102,97,99,88,93,84,89,92,92,84,92,116,116,79,83,86,89,82,89,94,119,94,119}},
{"CDL3INSIDE",5,100,6,{99,126,99,118,109,109,88,89,116,126,115,118,108,124,78,80,92,98,92,96,96,152,56,112}},
{"CDL3INSIDE",6,-100,7,{113,113,78,82,81,94,79,93,81,101,81,93,82,101,74,99,92,113,91,112,108,116,100,104,92,132,64,80}},
{"CDL3INSIDE",6,-100,7,{92,132,76,80,84,120,84,112,108,112,87,88,108,109,76,84,84,115,82,111,102,102,100,102,101,102,80,80}},
{"CDL3INSIDE",6,100,7,{84,104,68,104,108,113,108,112,112,116,76,92,108,108,96,96,100,116,72,80,88,104,84,96,104,112,103,112}},
{"CDL3INSIDE",6,100,7,{94,116,92,116,114,122,92,92,81,100,81,92,112,113,100,101,108,109,81,89,100,101,96,101,108,116,106,115}},
{"CDL3INSIDE",7,-100,5,{80,100,80,84,80,92,78,88,80,107,80,107,96,96,83,87,80,80,79,79}},
{"CDL3INSIDE",7,-100,5,{84,112,76,104,112,112,86,88,96,112,88,112,108,110,108,108,112,112,44,84}},
{"CDL3INSIDE",7,100,5,{104,106,94,94,96,109,96,108,96,112,84,84,88,89,84,89,104,114,102,112}},
{"CDL3INSIDE",7,100,5,{104,120,103,118,104,114,100,113,112,120,83,83,96,107,95,105,104,117,104,113}},
{"CDL3LINESTRIKE",0,-100,9,{100,110,100,110,100,116,98,114,100,104,86,90,104,105,91,95,96,112,92,112,116,117,104,104,118,126,91,95,109,117,79,87,81,117,81,117}},
{"CDL3LINESTRIKE",0,-100,9,{104,104,103,104,88,89,87,89,108,108,108,108,84,84,82,84,84,87,80,85,108,109,100,100,100,108,81,89,96,112,72,88,85,119,77,119}},
{"CDL3LINESTRIKE",0,100,9,{109,109,108,109,81,81,77,81,113,113,74,82,89,118,81,118,112,116,109,111,84,89,68,88,84,96,68,96,80,101,80,100,112,120,78,80}},
{"CDL3LINESTRIKE",0,100,9,{96,100,87,95,84,87,84,85,96,100,92,96,88,97,86,89,112,113,108,112,90,102,90,94,93,98,91,98,96,109,88,105,118,118,80,80}},
{"CDL3LINESTRIKE",1,-100,5,{104,106,88,88,109,113,93,101,101,103,100,100,99,99,94,98,93,116,89,114}},
{"CDL3LINESTRIKE",1,-100,5,{112,114,88,96,108,116,103,105,114,114,103,103,115,117,93,94,82,120,78,112}},
{"CDL3LINESTRIKE",1,100,5,{104,120,100,116,88,104,84,96,96,100,96,100,104,105,96,104,108,110,68,84}},
{"CDL3LINESTRIKE",1,100,5,{83,84,79,81,96,103,94,101,100,105,100,104,101,106,101,106,116,116,89,93}},
{"CDL3LINESTRIKE",2,-100,6,{104,105,80,88,96,108,94,108,108,110,96,100,108,124,86,88,108,109,76,84,80,113,72,112}},
{"CDL3LINESTRIKE",2,-100,6,{88,109,72,108,104,106,48,88,102,102,91,99,112,113,86,94,93,95,84,86,81,117,81,116}},
{"CDL3LINESTRIKE",2,100,6,{104,123,96,119,104,114,96,112,88,88,88,88,88,112,87,96,96,112,88,108,112,152,78,80}},
{"CDL3LINESTRIKE",2,100,6,{80,94,79,92,80,112,76,112,88,91,87,89,88,106,88,104,108,110,108,108,117,117,76,84}},
{"CDL3LINESTRIKE",3,-100,4,{104,104,101,103,103,103,89,91,100,100,84,86,83,119,81,115}},
{"CDL3LINESTRIKE",3,-100,4,{94,94,87,89,90,94,84,86,86,87,73,81,80,106,80,106}},
{"CDL3LINESTRIKE",3,100,4,{88,93,80,89,88,109,87,108,92,128,88,112,114,118,78,86}},
{"CDL3LINESTRIKE",3,100,4,{88,98,48,96,88,100,87,100,100,115,99,113,114,122,82,82}},
{"CDL3LINESTRIKE",4,-100,6,{104,105,90,91,96,104,79,81,112,112,111,111,112,112,96,96,104,112,86,90,88,124,88,116}},
{"CDL3LINESTRIKE",4,-100,6,{84,112,84,112,92,93,68,84,100,108,90,92,100,102,83,87,100,100,84,85,82,117,78,117}},
{"CDL3LINESTRIKE",4,100,6,{112,120,88,96,100,102,92,92,83,87,83,86,88,88,88,88,88,91,84,89,96,98,72,80}},
{"CDL3LINESTRIKE",4,100,6,{115,115,106,106,116,116,98,98,88,94,88,94,92,114,90,110,89,115,89,111,118,122,81,83}},
{"CDL3LINESTRIKE",5,-100,5,{88,88,72,80,100,101,81,85,96,96,76,84,100,100,81,83,80,144,80,104}},
{"CDL3LINESTRIKE",5,-100,5,{96,96,84,84,110,114,107,107,110,112,97,99,100,101,93,93,90,117,88,117}},
{"CDL3LINESTRIKE",5,100,5,{109,117,87,87,84,88,68,88,84,108,84,92,92,104,52,104,112,152,76,80}},
{"CDL3LINESTRIKE",5,100,5,{96,112,96,104,95,96,93,95,96,105,92,104,104,110,104,108,109,117,89,89}},
{"CDL3LINESTRIKE",6,-100,8,{108,112,101,101,84,86,76,85,80,96,72,95,96,100,80,84,102,110,85,93,96,96,86,88,100,101,78,86,84,105,76,104}},
{"CDL3LINESTRIKE",6,-100,8,{91,93,80,80,88,92,88,92,85,98,84,98,115,117,100,102,106,106,92,92,98,99,86,87,91,93,82,83,81,116,79,115}},
{"CDL3LINESTRIKE",6,100,8,{84,100,80,100,104,108,52,92,100,102,98,100,108,109,92,108,94,105,90,97,88,112,88,108,91,117,83,117,118,119,78,80}},
{"CDL3LINESTRIKE",6,100,8,{96,97,87,88,84,100,80,100,112,128,96,96,92,148,91,108,84,92,84,88,92,96,76,96,96,116,96,100,112,112,76,80}},
{"CDL3LINESTRIKE",7,-100,6,{80,112,40,104,104,124,104,108,104,104,92,92,104,106,91,91,100,100,86,87,80,108,40,108}},
{"CDL3LINESTRIKE",7,-100,6,{96,98,83,84,96,116,94,112,113,114,103,103,113,115,98,100,107,108,91,95,94,116,94,115}},
{"CDL3LINESTRIKE",7,100,6,{108,124,84,100,92,136,76,96,87,101,87,101,93,106,93,102,90,110,90,110,117,119,80,84}},
{"CDL3LINESTRIKE",7,100,6,{84,106,44,104,92,100,88,100,85,95,85,93,80,95,78,94,89,107,89,99,111,111,81,81}},
{"CDL3OUTSIDE",0,-100,4,{84,85,84,84,96,96,95,96,100,108,92,92,112,128,80,80}},
{"CDL3OUTSIDE",0,-100,4,{96,116,80,100,104,104,64,104,112,120,56,96,96,112,72,80}},
{"CDL3OUTSIDE",0,100,4,{104,108,95,95,97,97,91,95,92,102,90,98,117,117,108,109}},
{"CDL3OUTSIDE",0,100,4,{96,104,94,94,104,104,81,82,80,106,72,106,119,123,110,110}},
{"CDL3OUTSIDE",1,-100,4,{81,107,79,107,105,120,104,118,119,119,89,89,93,97,84,84}},
{"CDL3OUTSIDE",1,-100,4,{93,105,91,105,103,115,95,107,119,121,81,82,99,101,78,80}},
{"CDL3OUTSIDE",1,100,4,{100,102,92,92,90,91,81,81,80,108,76,100,92,124,90,108}},
{"CDL3OUTSIDE",1,100,4,{104,108,95,97,97,98,86,94,87,101,79,101,83,115,82,107}},
{"CDL3OUTSIDE",2,-100,4,{118,118,97,98,97,109,97,107,115,123,94,94,93,95,73,81}},
{"CDL3OUTSIDE",2,-100,4,{96,104,94,94,101,109,93,107,114,116,94,95,106,107,94,94}},
{"CDL3OUTSIDE",2,100,4,{100,100,87,87,100,100,84,88,81,106,73,104,100,111,100,111}},
{"CDL3OUTSIDE",2,100,4,{84,97,83,96,110,112,96,97,96,112,95,111,112,117,108,113}},
{"CDL3OUTSIDE",3,-100,4,{84,97,80,96,104,106,104,105,107,107,90,92,104,112,80,88}},
{"CDL3OUTSIDE",3,-100,4,{96,110,94,110,108,112,104,108,119,127,106,106,88,103,87,95}},
{"CDL3OUTSIDE",3,100,4,{104,104,103,103,88,92,87,87,80,97,40,96,104,105,99,103}},
{"CDL3OUTSIDE",3,100,4,{98,103,98,103,95,97,76,84,83,103,75,102,87,117,83,113}},
{"CDL3OUTSIDE",4,-100,4,{100,100,88,88,108,110,108,109,112,116,104,104,100,102,96,96}},
{"CDL3OUTSIDE",4,-100,4,{119,121,109,117,102,111,100,109,112,112,91,91,97,98,81,81}},
{"CDL3OUTSIDE",4,100,4,{100,110,100,110,106,106,100,101,86,118,84,114,98,119,98,118}},
{"CDL3OUTSIDE",4,100,4,{108,109,76,80,96,98,82,83,80,144,79,104,104,121,102,119}},
{"CDL3OUTSIDE",5,-100,4,{108,108,104,104,100,104,60,104,112,152,84,92,108,109,86,88}},
{"CDL3OUTSIDE",5,-100,4,{84,108,83,108,104,108,96,108,112,112,60,100,108,124,84,92}},
{"CDL3OUTSIDE",5,100,4,{101,103,96,97,105,113,96,98,85,113,85,113,105,117,103,116}},
{"CDL3OUTSIDE",5,100,4,{80,80,64,80,96,136,76,92,84,112,84,108,80,112,76,112}},
{"CDL3OUTSIDE",6,-100,4,{106,121,104,119,102,112,102,110,114,115,88,92,92,94,82,84}},
{"CDL3OUTSIDE",6,-100,4,{87,106,85,105,110,119,106,111,115,117,103,105,108,108,99,99}},
{"CDL3OUTSIDE",6,100,4,{111,115,97,97,90,90,89,89,84,106,84,102,101,118,99,117}},
{"CDL3OUTSIDE",6,100,4,{97,97,92,94,95,103,85,93,80,100,72,96,81,113,77,113}},
{"CDL3OUTSIDE",7,-100,4,{104,114,104,113,102,107,101,103,111,115,101,101,99,100,81,85}},
{"CDL3OUTSIDE",7,-100,4,{80,82,71,79,88,90,84,89,96,96,83,87,96,97,76,84}},
{"CDL3OUTSIDE",7,100,4,{110,111,106,108,91,91,83,87,85,109,85,107,92,110,88,109}},
{"CDL3OUTSIDE",7,100,4,{96,113,96,113,101,102,90,90,82,107,81,103,109,113,108,108}},
{"CDL3STARSINSOUTH",0,100,13,{102,110,100,101,119,119,96,100,107,111,84,88,87,94,86,90,95,95,83,84,89,91,85,86,104,112,104,112,114,120,110,119,86,89,84,89,96,96,90,90,104,120,40,80,108,108,64,104,104,105,99,100}},
{"CDL3STARSINSOUTH",0,100,13,{84,119,82,117,85,103,85,102,83,87,79,86,86,97,85,93,80,87,80,85,91,103,91,95,97,106,97,104,96,109,92,105,98,126,90,118,107,109,103,109,108,110,44,84,104,120,80,96,104,106,98,100}},
{"CDL3STARSINSOUTH",1,100,4,{104,104,104,104,112,112,40,80,96,96,44,84,88,89,76,80}},
{"CDL3STARSINSOUTH",1,100,4,{96,111,96,111,104,104,48,88,104,144,52,92,84,85,78,80}},
{"CDL3STARSINSOUTH",2,100,5,{104,104,84,92,88,88,64,80,104,106,72,88,100,140,76,92,112,120,108,108}},
{"CDL3STARSINSOUTH",2,100,5,{112,112,103,111,92,94,88,93,112,112,64,80,92,93,64,80,84,84,80,80}},
{"CDL3STARSINSOUTH",4,100,6,{104,114,104,113,96,110,94,109,104,104,94,94,112,114,93,101,113,114,97,105,105,105,100,100}},
{"CDL3STARSINSOUTH",4,100,6,{80,96,40,88,84,116,82,108,96,112,78,80,112,112,52,92,108,112,64,104,88,90,80,80}},
{"CDL3STARSINSOUTH",5,100,6,{84,85,82,83,108,109,107,109,104,104,103,103,104,104,48,88,95,95,72,80,84,84,83,83}},
{"CDL3STARSINSOUTH",5,100,6,{96,100,83,83,100,104,87,88,104,104,88,88,108,112,52,92,100,100,72,88,92,93,80,80}},
{"CDL3STARSINSOUTH",6,100,7,{80,80,72,80,104,105,104,104,92,93,89,91,104,106,100,105,100,104,78,86,104,106,84,100,102,102,100,100}},
{"CDL3STARSINSOUTH",6,100,7,{92,101,92,93,80,83,80,81,104,105,96,105,92,97,92,93,104,104,80,88,104,144,80,96,112,114,108,108}},
{"CDL3STARSINSOUTH",7,100,5,{104,113,102,105,104,112,103,103,118,126,91,99,106,114,93,97,95,96,94,94}},
{"CDL3STARSINSOUTH",7,100,5,{113,117,78,86,96,96,86,87,108,124,40,80,108,112,76,92,108,109,102,104}},
{"CDL3WHITESOLDIERS",0,100,13,{104,105,88,104,104,106,92,96,92,93,84,84,104,112,56,96,84,92,83,84,108,109,106,108,80,104,78,104,104,148,104,108,84,100,80,96,112,112,86,88,80,92,72,92,84,105,82,104,92,110,92,108}},
{"CDL3WHITESOLDIERS",0,100,13,{96,96,86,86,96,97,84,84,96,111,96,111,100,122,92,114,96,96,83,87,100,115,100,115,96,112,95,112,96,97,82,82,104,112,83,91,104,108,88,88,96,110,96,110,100,112,100,112,104,119,100,119}},
{"CDL3WHITESOLDIERS",1,100,4,{84,100,80,100,96,110,96,109,100,112,96,112,104,117,103,117}},
{"CDL3WHITESOLDIERS",1,100,4,{96,115,95,107,85,92,83,92,89,110,85,109,92,113,91,113}},
{"CDL3WHITESOLDIERS",2,100,6,{96,105,95,97,92,94,87,91,88,89,83,87,96,105,92,104,100,113,100,111,104,122,100,120}},
{"CDL3WHITESOLDIERS",2,100,6,{96,98,76,84,108,108,76,84,112,152,110,112,96,108,95,108,100,110,99,110,104,116,100,115}},
{"CDL3WHITESOLDIERS",3,100,3,{84,96,44,92,90,99,90,99,100,110,92,110}},
{"CDL3WHITESOLDIERS",3,100,3,{96,110,88,109,100,113,92,113,104,120,96,118}},
{"CDL3WHITESOLDIERS",4,100,6,{80,80,80,80,104,105,60,100,100,100,84,100,87,102,79,100,96,112,88,112,100,117,99,117}},
{"CDL3WHITESOLDIERS",4,100,6,{96,102,92,100,96,96,88,88,80,92,64,92,96,106,94,106,100,112,99,112,104,119,104,119}},
{"CDL3WHITESOLDIERS",5,100,5,{119,119,87,89,113,125,112,117,96,108,94,108,100,109,100,109,104,119,102,119}},
{"CDL3WHITESOLDIERS",5,100,5,{84,86,40,80,88,89,48,88,91,102,90,101,96,106,96,106,102,117,101,117}},
{"CDL3WHITESOLDIERS",6,100,7,{88,108,86,92,104,120,95,96,96,108,96,104,96,112,87,88,86,95,86,93,96,110,94,109,104,116,104,116}},
{"CDL3WHITESOLDIERS",6,100,7,{94,114,90,112,118,122,91,91,82,97,81,97,108,116,99,101,96,96,88,96,98,104,96,104,104,112,100,112}},
{"CDL3WHITESOLDIERS",7,100,7,{100,100,76,80,100,108,99,104,112,116,83,84,84,148,84,108,83,89,82,89,92,116,92,112,96,119,94,119}},
{"CDL3WHITESOLDIERS",7,100,7,{86,112,85,111,94,94,87,87,85,85,76,80,119,120,86,86,83,108,75,107,87,109,87,109,93,120,91,118}},
{"CDLABANDONEDBABY",0,-100,13,{100,104,98,100,84,87,83,85,112,113,112,112,104,108,103,103,112,113,111,111,104,105,100,104,100,100,99,99,80,82,80,80,88,93,80,89,108,108,107,107,96,97,88,97,104,104,104,104,92,92,90,91}},
{"CDLABANDONEDBABY",0,-100,13,{104,108,95,103,108,109,108,109,92,92,92,92,104,105,102,103,88,90,86,87,108,112,107,108,80,82,79,81,108,112,104,108,104,113,104,105,80,85,80,81,96,99,96,97,108,109,104,108,96,98,87,95}},
{"CDLABANDONEDBABY",0,100,13,{88,96,81,81,98,99,85,85,112,119,111,119,105,117,97,117,94,102,81,89,102,102,91,99,110,114,78,80,97,99,78,86,90,97,90,93,113,114,105,107,104,104,86,94,84,84,81,83,96,114,94,106}},
{"CDLABANDONEDBABY",0,100,13,{96,107,88,107,96,115,92,107,96,109,96,105,96,96,80,84,104,117,102,117,104,116,104,116,100,109,100,109,96,96,78,80,104,116,103,115,104,112,88,92,111,119,98,98,80,80,80,80,92,117,84,109}},
{"CDLABANDONEDBABY",1,-100,4,{100,108,99,108,84,103,82,101,116,124,113,115,97,97,84,84}},
{"CDLABANDONEDBABY",1,-100,4,{108,109,99,103,85,109,84,108,112,113,111,111,104,104,96,96}},
{"CDLABANDONEDBABY",1,100,4,{104,107,102,107,112,116,84,84,83,83,82,82,112,116,110,114}},
{"CDLABANDONEDBABY",1,100,4,{108,110,80,96,115,115,96,100,90,94,88,90,106,110,98,108}},
{"CDLABANDONEDBABY",2,-100,5,{108,120,106,112,92,92,52,92,99,104,99,104,109,109,108,108,96,104,84,88}},
{"CDLABANDONEDBABY",2,-100,5,{112,115,108,113,92,100,88,92,84,108,76,104,112,152,112,112,88,88,79,80}},
{"CDLABANDONEDBABY",2,100,5,{100,104,92,92,100,100,81,85,100,100,87,87,84,84,82,83,100,117,100,115}},
{"CDLABANDONEDBABY",2,100,5,{88,89,79,87,96,96,95,96,117,125,98,106,91,92,87,91,97,114,96,113}},
{"CDLABANDONEDBABY",3,-100,3,{90,114,86,106,117,121,115,117,97,97,82,84}},
{"CDLABANDONEDBABY",3,-100,3,{94,107,92,105,112,121,108,113,106,106,87,95}},
{"CDLABANDONEDBABY",3,100,3,{108,109,92,92,80,89,80,81,98,108,97,108}},
{"CDLABANDONEDBABY",3,100,3,{117,118,98,102,81,85,76,80,101,120,99,112}},
{"CDLABANDONEDBABY",4,-100,6,{113,117,108,108,117,117,80,80,114,114,108,108,95,107,95,103,112,116,108,112,104,106,90,94}},
{"CDLABANDONEDBABY",4,-100,6,{88,91,88,89,80,81,71,79,80,88,72,80,96,108,94,108,118,119,118,119,107,107,90,98}},
{"CDLABANDONEDBABY",4,100,6,{100,104,99,104,104,106,78,80,88,100,80,100,112,116,100,108,86,94,84,85,109,119,108,118}},
{"CDLABANDONEDBABY",4,100,6,{108,118,104,114,112,124,104,116,113,113,111,112,96,96,82,82,80,81,72,80,86,113,86,109}},
{"CDLABANDONEDBABY",5,-100,6,{100,123,98,115,104,120,104,120,104,104,86,88,92,109,84,108,112,114,112,112,108,108,83,84}},
{"CDLABANDONEDBABY",5,-100,6,{96,100,88,88,108,124,98,100,108,112,68,112,85,102,77,101,108,109,108,108,104,104,72,80}},
{"CDLABANDONEDBABY",5,100,6,{88,89,88,89,80,83,78,81,100,100,96,100,100,104,97,99,88,96,84,88,108,111,107,109}},
{"CDLABANDONEDBABY",5,100,6,{92,106,88,106,113,115,72,80,91,106,89,106,112,112,84,84,80,80,72,80,92,112,88,112}},
{"CDLABANDONEDBABY",6,-100,7,{88,89,88,89,112,113,104,113,96,97,93,95,96,96,95,96,92,95,91,93,100,103,96,101,80,80,75,79}},
{"CDLABANDONEDBABY",6,-100,7,{92,104,52,104,92,109,76,108,88,136,80,96,84,98,68,96,89,104,85,102,113,122,113,114,98,106,80,84}},
{"CDLABANDONEDBABY",6,100,7,{100,101,100,100,88,89,86,89,92,92,91,92,104,113,102,105,108,108,105,105,87,91,86,86,104,119,96,111}},
{"CDLABANDONEDBABY",6,100,7,{100,110,92,109,100,101,84,84,100,113,100,109,100,114,98,113,116,124,98,98,89,91,87,87,95,122,95,114}},
{"CDLABANDONEDBABY",7,-100,5,{84,94,80,92,96,104,96,96,84,93,83,92,112,114,110,112,92,92,64,80}},
{"CDLABANDONEDBABY",7,-100,5,{88,92,80,88,100,104,96,100,84,97,84,96,104,104,102,104,96,100,72,88}},
{"CDLABANDONEDBABY",7,100,5,{104,112,84,92,96,112,96,108,108,112,88,88,84,84,84,84,100,114,100,114}},
{"CDLABANDONEDBABY",7,100,5,{106,106,104,104,98,99,94,94,104,120,96,96,84,84,84,84,100,116,92,112}},
{"CDLADVANCEBLOCK",0,-100,13,{100,102,84,84,82,88,80,88,89,90,81,85,115,117,104,106,106,114,84,88,110,110,81,83,119,119,110,111,101,101,80,82,96,110,88,102,117,119,80,82,88,108,48,108,100,119,92,115,114,125,113,117}},
{"CDLADVANCEBLOCK",0,-100,13,{100,110,99,108,100,110,96,109,100,108,96,108,100,101,83,84,96,110,95,110,100,112,99,112,100,116,100,108,96,96,74,82,96,107,96,105,100,113,99,112,89,109,87,109,106,120,106,118,109,119,107,119}},
{"CDLADVANCEBLOCK",1,-100,4,{81,99,81,91,84,108,80,108,100,113,96,111,112,115,111,113}},
{"CDLADVANCEBLOCK",1,-100,4,{92,106,84,104,83,99,75,99,88,116,48,100,104,104,104,104}},
{"CDLADVANCEBLOCK",2,-100,6,{108,117,104,109,92,95,92,93,80,80,72,80,93,107,89,107,102,114,102,113,111,116,111,114}},
{"CDLADVANCEBLOCK",2,-100,6,{96,100,80,84,88,112,87,96,108,128,104,112,95,104,95,104,102,112,101,110,110,115,106,111}},
{"CDLADVANCEBLOCK",3,-100,3,{81,95,81,93,85,116,84,112,94,121,90,113}},
{"CDLADVANCEBLOCK",3,-100,3,{96,108,96,107,100,111,100,109,104,120,104,112}},
{"CDLADVANCEBLOCK",4,-100,6,{88,90,48,88,112,113,68,84,104,104,84,84,84,96,80,96,96,111,95,111,104,112,104,112}},
{"CDLADVANCEBLOCK",4,-100,6,{88,90,78,80,84,113,76,112,88,113,80,112,96,114,96,106,98,117,98,116,114,119,114,117}},
{"CDLADVANCEBLOCK",5,-100,6,{80,80,79,80,108,111,104,109,112,117,112,113,84,100,84,100,96,106,96,104,108,108,100,108}},
{"CDLADVANCEBLOCK",5,-100,6,{84,88,76,88,88,112,86,108,92,92,84,84,81,113,73,112,102,113,98,113,116,123,112,119}},
{"CDLADVANCEBLOCK",6,-100,7,{100,112,100,104,96,97,96,96,84,108,82,108,104,106,60,100,83,103,83,103,91,116,90,108,98,114,98,113}},
{"CDLADVANCEBLOCK",6,-100,7,{100,112,100,104,96,97,96,96,84,108,82,108,104,106,60,100,88,115,80,107,94,110,94,110,108,120,104,116}},
{"CDLADVANCEBLOCK",7,-100,7,{100,109,96,101,108,117,104,109,92,93,84,92,112,114,112,113,82,108,82,108,96,111,92,111,102,121,100,117}},
{"CDLADVANCEBLOCK",7,-100,7,{92,100,88,92,100,100,99,99,80,84,76,80,112,115,112,113,84,100,84,100,92,104,92,104,104,108,104,108}},
{"CDLBELTHOLD",0,-100,11,{96,105,96,97,92,95,84,93,112,115,112,113,96,98,88,97,88,96,83,87,104,104,103,103,96,97,94,97,88,90,80,89,84,88,76,84,80,82,76,80,104,104,91,92}},
{"CDLBELTHOLD",0,-100,11,{96,105,96,97,92,95,84,93,112,115,112,113,96,98,88,97,88,96,83,87,104,104,103,103,96,97,94,97,88,90,80,89,84,88,76,84,80,82,76,80,108,108,107,107}},
{"CDLBELTHOLD",0,100,11,{96,105,96,97,92,95,84,93,112,115,112,113,96,98,88,97,88,96,83,87,104,104,103,103,96,97,94,97,88,90,80,89,84,88,76,84,80,82,76,80,100,113,100,109}},
{"CDLBELTHOLD",0,100,11,{96,105,96,97,92,95,84,93,112,115,112,113,96,98,88,97,88,96,83,87,104,104,103,103,96,97,94,97,88,90,80,89,84,88,76,84,80,82,76,80,83,108,83,107}},
{"CDLBELTHOLD",1,-100,2,{98,106,94,105,100,100,81,89}},
{"CDLBELTHOLD",1,-100,2,{98,106,94,105,112,112,80,80}},
{"CDLBELTHOLD",1,100,2,{98,106,94,105,82,113,82,111}},
{"CDLBELTHOLD",1,100,2,{98,106,94,105,87,108,87,107}},
{"CDLBELTHOLD",2,-100,3,{108,109,98,100,112,112,48,88,103,103,83,83}},
{"CDLBELTHOLD",2,-100,3,{108,109,98,100,112,112,48,88,105,109,82,83}},
{"CDLBELTHOLD",2,100,3,{108,109,98,100,112,112,48,88,81,120,81,112}},
{"CDLBELTHOLD",2,100,3,{108,109,98,100,112,112,48,88,83,119,83,118}},
{"CDLBELTHOLD",3,-100,1,{100,100,82,86}},
{"CDLBELTHOLD",3,-100,1,{96,97,72,80}},
{"CDLBELTHOLD",3,100,1,{104,115,103,114}},
{"CDLBELTHOLD",3,100,1,{96,111,96,109}},
{"CDLBELTHOLD",4,-100,3,{88,90,76,80,100,112,100,108,100,100,85,87}},
{"CDLBELTHOLD",4,-100,3,{88,90,76,80,100,112,100,108,112,112,108,108}},
{"CDLBELTHOLD",4,100,3,{88,90,76,80,100,112,100,108,104,113,104,112}},
{"CDLBELTHOLD",4,100,3,{88,90,76,80,100,112,100,108,80,116,80,100}},
{"CDLBELTHOLD",5,-100,4,{117,121,103,103,80,99,80,99,82,96,80,88,96,96,78,80}},
{"CDLBELTHOLD",5,-100,4,{117,121,103,103,80,99,80,99,82,96,80,88,96,97,74,82}},
{"CDLBELTHOLD",5,100,4,{117,121,103,103,80,99,80,99,82,96,80,88,82,119,81,117}},
{"CDLBELTHOLD",5,100,4,{117,121,103,103,80,99,80,99,82,96,80,88,86,118,85,118}},
{"CDLBELTHOLD",6,-100,5,{106,106,81,81,116,123,116,119,110,112,101,109,84,86,73,81,104,104,88,88}},
{"CDLBELTHOLD",6,-100,5,{106,106,81,81,116,123,116,119,110,112,101,109,84,86,73,81,110,111,99,101}},
{"CDLBELTHOLD",6,100,5,{106,106,81,81,116,123,116,119,110,112,101,109,84,86,73,81,92,112,90,108}},
{"CDLBELTHOLD",6,100,5,{106,106,81,81,116,123,116,119,110,112,101,109,84,86,73,81,94,123,93,119}},
{"CDLBELTHOLD",7,-100,3,{104,106,92,92,104,108,60,100,100,102,76,84}},
{"CDLBELTHOLD",7,-100,3,{104,106,92,92,104,108,60,100,108,110,52,92}},
{"CDLBELTHOLD",7,100,3,{104,106,92,92,104,108,60,100,87,107,87,106}},
{"CDLBELTHOLD",7,100,3,{104,106,92,92,104,108,60,100,93,115,93,115}},
{"CDLBREAKAWAY",0,-100,15,{112,120,111,111,112,112,107,111,104,106,103,104,108,116,104,108,92,100,88,92,84,84,82,83,100,101,92,100,84,84,80,84,88,90,85,87,104,104,100,104,84,93,76,85,96,96,80,96,92,97,91,93,96,108,95,107,88,89,87,87}},
{"CDLBREAKAWAY",0,-100,15,{96,96,88,96,84,86,84,85,112,113,111,113,96,104,95,96,88,96,80,88,100,101,98,101,100,103,92,101,108,116,99,107,104,105,95,103,112,112,109,111,84,86,82,85,88,89,86,89,92,94,88,92,108,117,108,109,88,92,85,87}},
{"CDLBREAKAWAY",0,100,15,{80,85,79,81,112,112,112,112,84,86,82,85,92,92,87,91,96,96,87,95,84,85,79,83,80,89,76,81,100,105,96,101,84,86,79,83,96,97,95,97,108,108,107,107,92,96,91,91,80,85,72,81,80,82,71,79,96,104,92,96}},
{"CDLBREAKAWAY",0,100,15,{84,85,83,85,80,80,75,79,92,93,91,91,88,88,86,88,112,116,111,112,84,92,84,84,96,97,88,96,92,96,92,92,92,92,90,91,84,85,83,85,112,112,111,111,108,116,107,107,96,104,94,95,96,100,81,82,108,117,104,109}},
{"CDLBREAKAWAY",1,-100,6,{104,106,104,104,84,87,83,85,96,100,96,96,104,106,99,103,104,112,100,104,88,88,87,87}},
{"CDLBREAKAWAY",1,-100,6,{96,98,92,96,80,89,80,81,84,84,80,84,100,102,96,101,104,109,103,105,84,88,83,83}},
{"CDLBREAKAWAY",1,100,6,{104,120,100,104,108,116,107,107,92,94,89,91,88,93,87,89,88,92,79,87,92,94,91,93}},
{"CDLBREAKAWAY",1,100,6,{112,114,104,112,118,118,108,112,103,111,89,97,96,104,82,82,83,87,79,81,93,107,91,105}},
{"CDLBREAKAWAY",2,-100,7,{112,112,108,112,88,89,88,88,88,90,88,89,92,94,91,93,96,105,95,97,104,112,103,104,92,92,90,91}},
{"CDLBREAKAWAY",2,-100,7,{112,114,96,112,96,97,92,92,88,108,86,92,96,112,92,112,96,115,94,111,96,136,96,96,104,104,93,95}},
{"CDLBREAKAWAY",2,100,7,{100,108,97,99,88,92,88,88,117,125,108,116,106,114,80,80,80,96,79,88,86,87,74,82,102,115,100,114}},
{"CDLBREAKAWAY",2,100,7,{92,92,92,92,88,89,86,88,118,122,108,116,108,112,95,99,82,103,81,101,87,88,78,80,102,114,98,113}},
{"CDLBREAKAWAY",3,-100,5,{80,81,80,81,96,98,96,96,108,109,103,107,112,113,112,113,92,93,90,91}},
{"CDLBREAKAWAY",3,-100,5,{81,90,81,86,88,92,88,88,104,112,103,103,108,120,106,116,100,102,79,87}},
{"CDLBREAKAWAY",3,100,5,{108,108,107,107,100,101,95,99,88,89,87,89,80,88,71,79,100,102,96,101}},
{"CDLBREAKAWAY",3,100,5,{112,112,111,111,92,92,90,91,88,90,87,89,84,86,83,83,100,101,99,101}},
{"CDLBREAKAWAY",4,-100,7,{100,100,90,92,96,110,96,110,80,82,76,81,108,110,107,109,112,113,111,111,112,116,112,112,92,94,91,91}},
{"CDLBREAKAWAY",4,-100,7,{103,105,84,88,118,118,111,111,80,84,64,84,90,96,90,92,100,105,100,101,108,113,108,109,96,96,83,85}},
{"CDLBREAKAWAY",4,100,7,{104,105,96,96,96,105,96,104,108,108,103,107,100,108,99,99,88,89,88,89,80,80,79,79,104,105,102,105}},
{"CDLBREAKAWAY",4,100,7,{88,112,88,112,92,98,91,96,112,113,110,111,88,92,85,87,84,85,84,85,84,84,83,83,92,100,91,92}},
{"CDLBREAKAWAY",5,-100,8,{108,110,108,108,108,112,99,107,84,84,80,84,84,86,80,85,96,101,96,97,104,106,100,105,108,117,106,109,96,104,91,95}},
{"CDLBREAKAWAY",5,-100,8,{80,82,79,79,80,82,80,81,100,101,98,99,84,93,44,92,104,104,64,104,96,106,94,104,100,108,98,100,104,120,95,96}},
{"CDLBREAKAWAY",5,100,8,{84,86,83,84,96,98,95,97,104,105,101,103,104,104,95,103,88,96,87,87,88,93,84,89,84,84,75,83,100,108,99,100}},
{"CDLBREAKAWAY",5,100,8,{92,93,84,92,88,97,88,89,88,89,79,87,112,114,107,111,96,104,93,95,84,84,82,83,80,80,79,79,104,113,100,105}},
{"CDLBREAKAWAY",6,-100,6,{112,112,110,112,88,93,80,89,100,108,98,100,108,110,99,107,112,113,111,112,96,98,87,95}},
{"CDLBREAKAWAY",6,-100,6,{88,91,84,89,97,102,93,102,104,104,96,104,104,108,103,103,112,116,104,116,104,108,102,103}},
{"CDLBREAKAWAY",6,100,6,{112,116,112,112,108,108,105,107,96,98,87,95,88,96,84,88,84,84,83,83,100,104,100,100}},
{"CDLBREAKAWAY",6,100,6,{96,107,88,106,119,121,100,108,105,105,91,93,101,102,88,88,93,101,77,81,100,107,92,107}},
{"CDLBREAKAWAY",7,-100,7,{84,84,84,84,100,102,99,99,92,101,92,93,100,100,100,100,108,110,108,108,112,113,112,113,96,100,91,95}},
{"CDLBREAKAWAY",7,-100,7,{84,88,76,84,100,102,100,100,80,89,80,88,104,112,64,112,80,113,79,112,88,116,86,100,112,128,80,96}},
{"CDLBREAKAWAY",7,100,7,{104,105,86,90,104,117,96,115,119,120,94,102,100,108,98,98,95,103,90,90,99,99,81,81,98,103,98,101}},
{"CDLBREAKAWAY",7,100,7,{92,94,92,92,88,89,88,89,112,113,109,111,100,100,92,92,84,89,84,85,87,87,83,85,92,101,92,101}},
{"CDLCLOSINGMARUBOZU",0,-100,11,{104,118,100,114,96,100,83,85,96,113,96,105,100,101,88,90,100,114,96,113,96,112,95,112,104,112,88,96,96,104,77,81,96,109,95,107,104,119,104,118,100,100,88,88}},
{"CDLCLOSINGMARUBOZU",0,-100,11,{104,118,100,114,96,100,83,85,96,113,96,105,100,101,88,90,100,114,96,113,96,112,95,112,104,112,88,96,96,104,77,81,96,109,95,107,104,119,104,118,96,96,80,80}},
{"CDLCLOSINGMARUBOZU",0,100,11,{104,118,100,114,96,100,83,85,96,113,96,105,100,101,88,90,100,114,96,113,96,112,95,112,104,112,88,96,96,104,77,81,96,109,95,107,104,119,104,118,91,116,90,115}},
{"CDLCLOSINGMARUBOZU",0,100,11,{104,118,100,114,96,100,83,85,96,113,96,105,100,101,88,90,100,114,96,113,96,112,95,112,104,112,88,96,96,104,77,81,96,109,95,107,104,119,104,118,96,109,94,108}},
{"CDLCLOSINGMARUBOZU",1,-100,2,{96,100,88,92,113,113,107,108}},
{"CDLCLOSINGMARUBOZU",1,-100,2,{96,100,88,92,96,100,89,89}},
{"CDLCLOSINGMARUBOZU",1,100,2,{96,100,88,92,104,117,104,117}},
{"CDLCLOSINGMARUBOZU",1,100,2,{96,100,88,92,97,115,95,115}},
{"CDLCLOSINGMARUBOZU",2,-100,3,{100,101,96,101,80,80,76,80,104,112,96,96}},
{"CDLCLOSINGMARUBOZU",2,-100,3,{100,101,96,101,80,80,76,80,119,127,98,98}},
{"CDLCLOSINGMARUBOZU",2,100,3,{100,101,96,101,80,80,76,80,104,116,100,116}},
{"CDLCLOSINGMARUBOZU",2,100,3,{100,101,96,101,80,80,76,80,96,97,92,97}},
{"CDLCLOSINGMARUBOZU",3,-100,1,{106,114,95,95}},
{"CDLCLOSINGMARUBOZU",3,-100,1,{114,116,82,83}},
{"CDLCLOSINGMARUBOZU",3,100,1,{87,112,87,111}},
{"CDLCLOSINGMARUBOZU",3,100,1,{87,115,83,113}},
{"CDLCLOSINGMARUBOZU",4,-100,3,{108,109,103,107,92,92,89,91,100,102,89,89}},
{"CDLCLOSINGMARUBOZU",4,-100,3,{108,109,103,107,92,92,89,91,114,116,105,105}},
{"CDLCLOSINGMARUBOZU",4,100,3,{108,109,103,107,92,92,89,91,100,110,98,110}},
{"CDLCLOSINGMARUBOZU",4,100,3,{108,109,103,107,92,92,89,91,80,104,64,104}},
{"CDLCLOSINGMARUBOZU",5,-100,4,{80,86,64,84,92,113,91,112,92,105,92,104,100,108,85,86}},
{"CDLCLOSINGMARUBOZU",5,-100,4,{80,86,64,84,92,113,91,112,92,105,92,104,108,116,92,92}},
{"CDLCLOSINGMARUBOZU",5,100,4,{80,86,64,84,92,113,91,112,92,105,92,104,80,116,76,114}},
{"CDLCLOSINGMARUBOZU",5,100,4,{80,86,64,84,92,113,91,112,92,105,92,104,84,108,84,108}},
{"CDLCLOSINGMARUBOZU",6,-100,5,{80,99,76,99,94,116,94,114,115,115,90,90,99,117,98,115,100,140,76,80}},
{"CDLCLOSINGMARUBOZU",6,-100,5,{80,99,76,99,94,116,94,114,115,115,90,90,99,117,98,115,107,107,79,80}},
{"CDLCLOSINGMARUBOZU",6,100,5,{80,99,76,99,94,116,94,114,115,115,90,90,99,117,98,115,80,108,40,108}},
{"CDLCLOSINGMARUBOZU",6,100,5,{80,99,76,99,94,116,94,114,115,115,90,90,99,117,98,115,84,104,84,104}},
{"CDLCLOSINGMARUBOZU",7,-100,3,{108,124,88,104,80,96,72,92,108,108,82,82}},
{"CDLCLOSINGMARUBOZU",7,-100,3,{108,124,88,104,80,96,72,92,96,104,80,80}},
{"CDLCLOSINGMARUBOZU",7,100,3,{108,124,88,104,80,96,72,92,100,116,100,116}},
{"CDLCLOSINGMARUBOZU",7,100,3,{108,124,88,104,80,96,72,92,92,113,91,112}},
{"CDLCONCEALBABYSWALL",0,100,14,{104,112,86,88,100,110,100,110,96,96,72,80,104,104,91,92,96,107,88,107,96,112,92,108,100,110,99,110,100,101,87,88,100,111,92,109,104,106,85,93,103,104,87,87,118,119,111,111,104,112,94,102,118,118,86,88}},
{"CDLCONCEALBABYSWALL",0,100,14,{104,120,80,88,108,120,68,112,96,124,80,108,108,108,90,92,80,86,79,84,92,108,72,80,104,144,92,100,112,114,86,88,92,108,72,88,92,92,88,92,96,98,78,80,104,104,91,92,88,96,80,84,112,114,64,80}},
{"CDLCONCEALBABYSWALL",1,100,5,{88,136,88,96,114,114,76,80,111,112,92,94,92,100,85,89,112,112,83,87}},
{"CDLCONCEALBABYSWALL",1,100,5,{96,104,84,84,112,112,79,81,99,100,97,97,96,98,87,88,96,104,78,80}},
{"CDLCONCEALBABYSWALL",2,100,5,{104,113,96,105,92,92,79,81,119,119,116,116,115,117,108,108,116,120,88,88}},
{"CDLCONCEALBABYSWALL",2,100,5,{88,105,72,104,100,100,80,88,108,112,88,92,88,96,82,84,108,148,72,80}},
{"CDLCONCEALBABYSWALL",3,100,4,{103,105,88,88,98,99,87,88,83,91,82,82,106,114,77,81}},
{"CDLCONCEALBABYSWALL",3,100,4,{110,112,81,81,118,120,94,94,92,96,79,80,119,121,78,80}},
{"CDLCONCEALBABYSWALL",4,100,6,{84,116,80,100,92,132,52,92,92,96,80,80,112,112,104,108,104,112,91,92,104,144,88,88}},
{"CDLCONCEALBABYSWALL",4,100,6,{85,108,83,108,83,121,83,113,103,103,90,90,117,117,94,94,88,96,83,85,95,97,81,85}},
{"CDLCONCEALBABYSWALL",5,100,6,{100,102,88,96,92,116,88,100,96,98,84,84,100,100,96,96,92,100,83,84,100,102,78,80}},
{"CDLCONCEALBABYSWALL",5,100,6,{108,116,98,100,112,112,40,80,91,93,85,85,112,114,88,92,88,96,86,87,96,104,81,81}},
{"CDLCONCEALBABYSWALL",6,100,8,{100,100,72,80,80,116,78,108,88,96,87,96,80,88,72,88,119,119,100,101,103,103,91,93,90,94,80,84,109,113,76,80}},
{"CDLCONCEALBABYSWALL",6,100,8,{96,96,79,87,104,104,93,93,104,118,102,116,100,104,80,88,88,88,78,80,100,100,90,92,88,104,80,84,96,112,76,92}},
{"CDLCONCEALBABYSWALL",7,100,6,{80,93,78,92,100,108,52,92,96,97,95,95,100,100,89,89,88,90,80,80,118,126,78,80}},
{"CDLCONCEALBABYSWALL",7,100,6,{88,94,72,92,100,100,96,100,113,113,88,88,117,117,101,101,97,105,95,96,104,112,79,87}},
{"CDLCOUNTERATTACK",0,-100,12,{104,108,104,104,108,116,105,107,88,96,87,87,88,88,86,87,96,97,94,97,92,94,90,92,80,80,72,80,112,120,112,112,108,108,100,108,112,112,104,112,80,104,79,88,100,100,48,88}},
{"CDLCOUNTERATTACK",0,-100,12,{80,81,80,81,80,80,79,79,112,117,108,113,112,120,112,112,100,101,100,100,80,83,80,81,84,92,82,83,112,113,112,113,96,98,94,96,100,101,100,101,88,112,88,104,112,128,104,104}},
{"CDLCOUNTERATTACK",0,100,12,{108,124,108,108,88,89,72,80,104,116,100,108,100,102,80,80,112,112,111,112,108,108,52,92,92,108,52,104,112,114,90,92,92,128,92,112,92,92,76,80,119,123,102,104,84,109,76,105}},
{"CDLCOUNTERATTACK",0,100,12,{92,93,88,92,104,104,103,103,104,106,102,104,100,100,91,99,104,109,102,105,112,120,109,111,100,104,100,100,84,92,84,84,92,92,90,91,112,114,104,113,104,108,52,92,80,92,80,92}},
{"CDLCOUNTERATTACK",1,-100,3,{100,103,100,101,84,89,80,88,100,102,80,88}},
{"CDLCOUNTERATTACK",1,-100,3,{112,120,104,112,88,97,88,89,96,97,88,88}},
{"CDLCOUNTERATTACK",1,100,3,{80,85,80,81,108,116,60,100,84,108,83,100}},
{"CDLCOUNTERATTACK",1,100,3,{82,82,72,80,92,100,87,88,80,128,79,88}},
{"CDLCOUNTERATTACK",2,-100,4,{108,108,104,108,104,116,64,108,84,102,84,101,119,119,94,95}},
{"CDLCOUNTERATTACK",2,-100,4,{96,96,95,96,88,92,76,84,80,84,64,84,112,152,44,84}},
{"CDLCOUNTERATTACK",2,100,4,{84,88,68,88,112,113,108,112,108,116,88,96,84,97,83,96}},
{"CDLCOUNTERATTACK",2,100,4,{96,96,95,96,88,92,76,84,116,117,104,104,92,103,91,102}},
{"CDLCOUNTERATTACK",3,-100,2,{94,99,93,99,106,108,98,99}},
{"CDLCOUNTERATTACK",3,-100,2,{96,105,95,105,118,118,105,105}},
{"CDLCOUNTERATTACK",3,100,2,{112,112,92,92,90,94,90,93}},
{"CDLCOUNTERATTACK",3,100,2,{114,115,104,104,87,104,79,104}},
{"CDLCOUNTERATTACK",4,-100,5,{87,95,86,87,90,97,88,97,96,100,85,87,88,105,84,104,108,109,88,104}},
{"CDLCOUNTERATTACK",4,-100,5,{97,106,89,105,86,110,85,109,96,96,83,83,82,88,82,86,100,101,75,83}},
{"CDLCOUNTERATTACK",4,100,5,{104,120,103,116,104,120,104,118,100,121,92,113,112,112,88,92,84,93,83,92}},
{"CDLCOUNTERATTACK",4,100,5,{112,120,92,96,114,118,104,104,115,116,103,103,111,111,104,106,90,104,89,104}},
{"CDLCOUNTERATTACK",5,-100,5,{100,102,98,100,104,104,103,104,92,93,90,93,88,136,88,96,112,112,94,96}},
{"CDLCOUNTERATTACK",5,-100,5,{92,93,89,91,88,89,80,89,108,110,108,108,84,128,44,88,92,96,80,88}},
{"CDLCOUNTERATTACK",5,100,5,{100,102,98,100,104,104,103,104,92,93,90,93,112,114,91,92,80,93,80,92}},
{"CDLCOUNTERATTACK",5,100,5,{100,102,98,100,104,104,103,104,92,93,90,93,112,128,96,104,92,106,91,104}},
{"CDLCOUNTERATTACK",6,-100,6,{104,120,88,104,92,106,52,104,104,105,84,88,84,85,80,80,87,102,79,94,116,116,93,97}},
{"CDLCOUNTERATTACK",6,-100,6,{84,86,83,85,104,107,96,105,112,120,112,112,112,116,112,112,92,98,92,97,114,114,97,97}},
{"CDLCOUNTERATTACK",6,100,6,{84,88,40,80,92,148,76,108,112,120,96,104,112,116,64,104,96,96,86,86,80,100,80,92}},
{"CDLCOUNTERATTACK",6,100,6,{88,110,80,108,80,100,40,92,100,100,99,100,104,112,99,100,108,109,92,100,84,140,83,100}},
{"CDLCOUNTERATTACK",7,-100,4,{100,116,84,108,92,106,91,104,80,106,72,104,118,120,102,102}},
{"CDLCOUNTERATTACK",7,-100,4,{112,116,96,96,88,93,88,92,80,97,72,97,106,108,90,98}},
{"CDLCOUNTERATTACK",7,100,4,{96,100,88,96,92,92,92,92,112,112,96,96,88,97,80,96}},
{"CDLCOUNTERATTACK",7,100,4,{96,104,87,88,96,100,81,82,118,118,106,108,97,107,93,106}},
{"CDLDARKCLOUDCOVER",0,-100,12,{112,112,56,96,108,108,88,104,88,94,72,92,104,104,79,80,88,114,84,112,96,113,56,112,84,84,44,84,100,140,56,96,108,148,87,88,100,104,84,88,83,104,75,104,111,112,83,91}},
{"CDLDARKCLOUDCOVER",0,-100,12,{92,112,92,108,112,112,92,92,88,92,83,84,100,102,84,84,92,132,64,80,100,102,78,80,108,112,92,108,108,112,64,104,84,114,82,112,104,116,103,108,88,104,88,104,112,114,76,92}},
{"CDLDARKCLOUDCOVER",1,-100,3,{100,108,92,100,83,108,82,108,119,121,87,91}},
{"CDLDARKCLOUDCOVER",1,-100,3,{84,124,68,84,83,112,81,112,113,113,91,91}},
{"CDLDARKCLOUDCOVER",2,-100,4,{104,113,96,113,96,109,95,107,84,96,82,96,100,101,88,88}},
{"CDLDARKCLOUDCOVER",2,-100,4,{84,92,75,83,88,88,79,87,84,100,84,100,112,112,48,88}},
{"CDLDARKCLOUDCOVER",3,-100,2,{87,99,86,99,104,106,89,91}},
{"CDLDARKCLOUDCOVER",3,-100,2,{90,111,82,111,116,120,97,97}},
{"CDLDARKCLOUDCOVER",4,-100,4,{102,102,80,80,81,115,81,115,80,106,78,104,108,148,82,84}},
{"CDLDARKCLOUDCOVER",4,-100,4,{80,88,78,79,84,92,84,84,89,97,88,96,113,113,88,92}},
{"CDLDARKCLOUDCOVER",5,-100,5,{104,122,96,120,96,112,92,112,96,110,96,109,81,101,81,101,108,110,82,82}},
{"CDLDARKCLOUDCOVER",5,-100,5,{84,87,76,85,88,92,86,88,104,104,103,103,84,103,83,101,118,119,89,91}},
{"CDLDARKCLOUDCOVER",6,-100,3,{104,105,96,105,80,108,64,108,116,120,79,87}},
{"CDLDARKCLOUDCOVER",6,-100,3,{116,119,116,117,80,94,76,93,98,98,82,82}},
{"CDLDARKCLOUDCOVER",7,-100,4,{84,86,80,85,84,84,83,84,100,106,60,104,116,124,93,101}},
{"CDLDARKCLOUDCOVER",7,-100,4,{88,96,84,84,104,116,102,112,81,94,80,92,105,106,85,85}},
{"CDLDOJI",0,100,11,{104,112,103,112,112,113,112,112,104,152,102,112,104,112,80,84,84,92,76,80,84,124,76,84,100,116,88,96,88,112,86,108,112,128,72,80,80,106,80,104,100,108,98,99}},
{"CDLDOJI",0,100,11,{104,112,103,112,112,113,112,112,104,152,102,112,104,112,80,84,84,92,76,80,84,124,76,84,100,116,88,96,88,112,86,108,112,128,72,80,80,106,80,104,108,110,104,108}},
{"CDLDOJI",1,100,2,{108,108,96,104,84,85,76,85}},
{"CDLDOJI",1,100,2,{108,108,96,104,88,90,87,87}},
{"CDLDOJI",2,100,3,{97,97,77,85,94,107,92,103,108,112,106,107}},
{"CDLDOJI",2,100,3,{97,97,77,85,94,107,92,103,88,88,83,87}},
{"CDLDOJI",3,100,1,{104,106,95,103}},
{"CDLDOJI",3,100,1,{80,83,72,81}},
{"CDLDOJI",4,100,3,{108,108,106,108,96,100,84,84,100,101,92,100}},
{"CDLDOJI",4,100,3,{108,108,106,108,96,100,84,84,104,105,103,105}},
{"CDLDOJI",5,100,2,{100,114,96,114,100,104,99,99}},
{"CDLDOJI",5,100,2,{100,114,96,114,112,115,112,113}},
{"CDLDOJI",6,100,5,{88,108,84,108,96,112,80,104,108,116,92,100,100,148,96,108,108,116,108,108}},
{"CDLDOJI",6,100,5,{88,108,84,108,96,112,80,104,108,116,92,100,100,148,96,108,88,89,84,88}},
{"CDLDOJI",7,100,3,{84,108,84,92,100,144,96,104,112,116,111,111}},
{"CDLDOJI",7,100,3,{84,108,84,92,100,144,96,104,112,119,110,119}},
{"CDLDOJISTAR",0,-100,12,{112,112,88,92,112,120,100,104,108,116,78,80,84,94,68,92,100,128,100,112,92,96,72,88,80,92,80,92,96,136,68,84,96,116,80,100,112,116,98,100,96,114,96,112,114,122,106,114}},
{"CDLDOJISTAR",0,-100,12,{92,112,88,112,84,108,84,108,80,96,80,80,112,152,102,104,100,104,40,80,108,108,72,80,92,152,90,112,104,104,76,84,88,90,44,84,80,96,40,80,80,97,76,96,108,124,100,104}},
{"CDLDOJISTAR",0,100,12,{112,114,92,92,104,128,64,112,112,152,92,100,88,104,84,104,88,88,88,88,104,112,64,112,104,112,80,96,80,116,80,112,88,94,88,92,108,108,64,80,119,121,96,98,93,99,92,95}},
{"CDLDOJISTAR",0,100,12,{96,98,86,87,96,118,94,110,100,108,85,85,104,120,104,116,96,97,82,86,96,106,96,106,104,126,102,118,100,113,100,112,96,109,96,109,104,106,90,90,104,104,91,91,80,120,64,80}},
{"CDLDOJISTAR",1,-100,3,{84,88,83,83,87,110,83,102,104,112,102,104}},
{"CDLDOJISTAR",1,-100,3,{92,94,84,92,80,112,40,104,106,115,102,115}},
{"CDLDOJISTAR",1,100,3,{92,94,84,92,112,112,111,111,104,112,100,104}},
{"CDLDOJISTAR",1,100,3,{92,94,84,92,113,121,104,108,80,84,71,79}},
{"CDLDOJISTAR",2,-100,4,{100,100,88,88,104,104,88,88,80,99,80,97,100,103,98,101}},
{"CDLDOJISTAR",2,-100,4,{112,114,68,108,92,92,68,84,80,90,80,88,108,108,108,108}},
{"CDLDOJISTAR",2,100,4,{112,114,68,108,92,92,68,84,112,116,104,104,96,98,88,96}},
{"CDLDOJISTAR",2,100,4,{96,108,94,108,96,104,81,83,118,118,104,105,92,92,90,92}},
{"CDLDOJISTAR",3,-100,2,{84,86,84,86,106,107,104,106}},
{"CDLDOJISTAR",3,-100,2,{88,101,80,100,109,117,100,108}},
{"CDLDOJISTAR",3,100,2,{104,108,87,89,84,84,75,83}},
{"CDLDOJISTAR",3,100,2,{113,113,104,104,80,96,76,80}},
{"CDLDOJISTAR",4,-100,4,{108,109,100,108,80,89,72,81,80,101,80,101,110,120,108,112}},
{"CDLDOJISTAR",4,-100,4,{111,113,91,93,94,120,92,112,95,107,95,105,112,114,103,111}},
{"CDLDOJISTAR",4,100,4,{108,109,100,108,80,89,72,81,112,112,102,104,88,90,48,88}},
{"CDLDOJISTAR",4,100,4,{111,113,91,93,94,120,92,112,100,100,88,90,80,88,71,79}},
{"CDLDOJISTAR",5,-100,5,{100,101,80,84,104,120,92,92,80,96,76,96,83,110,75,108,112,112,110,112}},
{"CDLDOJISTAR",5,-100,5,{88,97,48,96,108,116,108,112,92,94,82,84,96,105,95,104,112,120,112,112}},
{"CDLDOJISTAR",5,100,5,{100,128,99,112,92,92,40,80,112,128,56,96,102,110,82,86,80,82,76,81}},
{"CDLDOJISTAR",5,100,5,{100,128,99,112,92,92,40,80,112,128,56,96,112,112,80,96,88,92,87,92}},
{"CDLDOJISTAR",6,-100,6,{104,104,89,91,81,111,77,103,116,116,88,92,81,85,73,81,80,88,76,88,96,98,95,96}},
{"CDLDOJISTAR",6,-100,6,{96,152,88,112,88,88,76,80,88,88,88,88,112,128,108,108,80,90,80,88,93,94,93,93}},
{"CDLDOJISTAR",6,100,6,{112,113,80,80,80,101,40,100,112,120,96,100,108,120,107,112,100,108,78,86,84,87,84,85}},
{"CDLDOJISTAR",6,100,6,{112,113,80,80,80,101,40,100,112,120,96,100,108,120,107,112,108,108,56,96,92,94,82,84}},
{"CDLDOJISTAR",7,-100,4,{103,110,103,110,107,109,83,83,100,112,96,112,117,125,117,117}},
{"CDLDOJISTAR",7,-100,4,{86,86,78,86,98,106,83,83,84,124,82,108,112,114,109,111}},
{"CDLDOJISTAR",7,100,4,{103,110,103,110,107,109,83,83,104,144,88,92,84,89,44,88}},
{"CDLDOJISTAR",7,100,4,{86,86,78,86,98,106,83,83,106,108,86,94,81,82,72,80}},
{"CDLDRAGONFLYDOJI",0,100,11,{92,100,52,92,96,136,80,88,100,108,100,108,80,116,78,108,80,104,72,104,88,140,88,100,108,112,88,92,80,102,40,100,96,96,88,88,108,108,96,104,107,108,98,106}},
{"CDLDRAGONFLYDOJI",0,100,11,{92,100,52,92,96,136,80,88,100,108,100,108,80,116,78,108,80,104,72,104,88,140,88,100,108,112,88,92,80,102,40,100,96,96,88,88,108,108,96,104,96,98,91,95}},
{"CDLDRAGONFLYDOJI",1,100,2,{100,101,99,100,80,80,72,80}},
{"CDLDRAGONFLYDOJI",1,100,2,{100,116,100,115,89,91,81,90}},
{"CDLDRAGONFLYDOJI",2,100,3,{100,108,88,88,112,112,40,80,88,89,40,80}},
{"CDLDRAGONFLYDOJI",2,100,3,{100,108,88,88,112,112,40,80,92,98,52,96}},
{"CDLDRAGONFLYDOJI",3,100,1,{104,105,95,103}},
{"CDLDRAGONFLYDOJI",3,100,1,{108,108,100,108}},
{"CDLDRAGONFLYDOJI",4,100,3,{100,115,99,111,100,101,89,91,100,100,95,99}},
{"CDLDRAGONFLYDOJI",4,100,3,{100,115,99,111,100,101,89,91,92,93,91,93}},
{"CDLDRAGONFLYDOJI",5,100,3,{108,109,106,109,108,109,107,107,80,80,64,80}},
{"CDLDRAGONFLYDOJI",5,100,3,{108,109,106,109,108,109,107,107,80,80,79,80}},
{"CDLDRAGONFLYDOJI",6,100,5,{88,94,88,92,108,148,100,108,108,112,102,104,104,112,102,108,84,84,76,84}},
{"CDLDRAGONFLYDOJI",6,100,5,{88,94,88,92,108,148,100,108,108,112,102,104,104,112,102,108,88,88,79,87}},
{"CDLDRAGONFLYDOJI",7,100,3,{107,111,82,86,92,101,88,100,104,106,96,104}},
{"CDLDRAGONFLYDOJI",7,100,3,{107,111,82,86,92,101,88,100,92,92,84,92}},
{"CDLENGULFING",0,-100,3,{111,113,104,105,102,105,101,104,107,107,80,88}},
{"CDLENGULFING",0,-100,3,{84,90,82,90,95,103,95,103,117,118,81,83}},
{"CDLENGULFING",0,-80,3,{107,107,100,102,93,105,89,105,105,113,79,83}},
{"CDLENGULFING",0,-80,3,{84,92,68,92,96,110,96,108,108,109,84,84}},
{"CDLENGULFING",0,100,3,{82,105,74,104,109,109,93,97,80,123,76,115}},
{"CDLENGULFING",0,100,3,{90,96,88,94,102,102,92,96,89,115,81,113}},
{"CDLENGULFING",0,80,3,{88,112,88,112,108,148,102,104,96,108,88,108}},
{"CDLENGULFING",0,80,3,{96,96,84,86,96,97,80,84,84,117,80,116}},
{"CDLENGULFING",1,-100,3,{89,112,87,108,92,107,84,106,117,117,90,90}},
{"CDLENGULFING",1,-100,3,{96,116,96,108,84,124,68,84,104,105,76,80}},
{"CDLENGULFING",1,-80,3,{84,93,82,92,80,92,79,92,96,136,80,80}},
{"CDLENGULFING",1,-80,3,{96,106,92,104,112,152,110,112,112,128,76,84}},
{"CDLENGULFING",1,100,3,{82,113,80,109,108,108,99,99,85,117,84,116}},
{"CDLENGULFING",1,100,3,{93,103,93,99,112,120,107,108,104,119,102,119}},
{"CDLENGULFING",1,80,3,{100,105,99,104,100,100,80,84,84,113,84,112}},
{"CDLENGULFING",1,80,3,{108,108,64,80,104,104,88,88,84,120,82,104}},
{"CDLENGULFING",2,-100,3,{109,109,82,84,96,100,95,96,103,111,87,87}},
{"CDLENGULFING",2,-100,3,{86,94,84,92,93,114,85,106,115,115,84,84}},
{"CDLENGULFING",2,-80,3,{100,100,99,100,80,80,72,80,80,80,79,79}},
{"CDLENGULFING",2,-80,3,{96,104,96,96,100,100,98,100,100,108,56,96}},
{"CDLENGULFING",2,100,3,{103,111,97,98,115,116,104,104,94,121,86,119}},
{"CDLENGULFING",2,100,3,{80,81,80,80,95,99,94,94,80,108,80,107}},
{"CDLENGULFING",2,80,3,{100,103,99,103,112,120,98,98,96,112,96,112}},
{"CDLENGULFING",2,80,3,{88,114,80,114,105,106,88,92,84,113,84,105}},
{"CDLENGULFING",3,-100,3,{89,107,85,107,95,112,91,111,113,113,80,80}},
{"CDLENGULFING",3,-100,3,{92,116,90,108,96,105,96,105,108,108,91,92}},
{"CDLENGULFING",3,-80,3,{92,93,80,88,100,112,84,108,108,108,48,88}},
{"CDLENGULFING",3,-80,3,{96,120,95,112,96,112,94,104,104,112,89,91}},
{"CDLENGULFING",3,100,3,{80,88,78,88,100,116,87,88,84,106,82,104}},
{"CDLENGULFING",3,100,3,{93,100,93,99,103,111,99,100,82,111,82,109}},
{"CDLENGULFING",3,80,3,{104,152,96,112,100,140,92,92,88,108,72,100}},
{"CDLENGULFING",3,80,3,{112,114,111,113,108,109,80,88,88,119,86,119}},
{"CDLENGULFING",4,-100,3,{114,122,94,94,90,101,90,93,100,100,78,82}},
{"CDLENGULFING",4,-100,3,{94,95,86,95,82,85,82,85,98,106,80,80}},
{"CDLENGULFING",4,-80,3,{112,112,72,88,108,114,68,112,112,152,76,84}},
{"CDLENGULFING",4,-80,3,{112,152,68,84,104,106,96,104,104,112,84,92}},
{"CDLENGULFING",4,100,3,{80,118,76,116,94,94,89,90,86,107,82,105}},
{"CDLENGULFING",4,100,3,{80,81,72,81,96,98,84,85,80,100,78,100}},
{"CDLENGULFING",4,80,3,{84,124,64,80,104,120,48,88,80,112,80,104}},
{"CDLENGULFING",4,80,3,{84,84,44,84,96,96,79,80,80,104,80,104}},
{"CDLENGULFING",5,-100,3,{116,117,84,85,88,92,88,90,99,103,76,84}},
{"CDLENGULFING",5,-100,3,{84,86,72,80,104,124,102,108,112,152,100,100}},
{"CDLENGULFING",5,-80,3,{108,148,95,96,104,104,103,104,104,105,72,88}},
{"CDLENGULFING",5,-80,3,{96,96,87,95,92,92,92,92,92,92,89,91}},
{"CDLENGULFING",5,100,3,{113,117,111,115,95,99,84,85,81,112,79,112}},
{"CDLENGULFING",5,100,3,{80,100,78,92,108,148,96,104,96,112,95,112}},
{"CDLENGULFING",5,80,3,{112,120,78,80,88,88,82,84,84,93,80,92}},
{"CDLENGULFING",5,80,3,{92,110,92,106,109,109,106,107,86,113,86,109}},
{"CDLENGULFING",6,-100,3,{100,102,96,96,92,108,90,92,96,96,83,84}},
{"CDLENGULFING",6,-100,3,{80,112,80,96,100,105,98,104,108,124,78,80}},
{"CDLENGULFING",6,-80,3,{112,112,80,84,108,112,108,108,108,116,84,100}},
{"CDLENGULFING",6,-80,3,{80,96,79,92,80,88,79,88,104,104,40,80}},
{"CDLENGULFING",6,100,3,{117,125,82,90,95,95,87,87,81,96,81,96}},
{"CDLENGULFING",6,100,3,{88,96,88,88,96,98,87,88,84,104,84,104}},
{"CDLENGULFING",6,80,3,{100,109,99,101,113,115,104,105,96,113,94,113}},
{"CDLENGULFING",6,80,3,{88,105,87,104,96,96,87,88,88,152,87,112}},
{"CDLENGULFING",7,-100,3,{91,93,90,93,107,109,99,109,118,118,98,102}},
{"CDLENGULFING",7,-100,3,{92,100,84,100,92,100,88,100,108,124,64,80}},
{"CDLENGULFING",7,-80,3,{100,116,100,115,96,112,88,104,104,112,91,92}},
{"CDLENGULFING",7,-80,3,{107,107,86,86,92,110,92,106,108,108,92,92}},
{"CDLENGULFING",7,100,3,{112,117,112,115,103,103,93,93,91,117,83,117}},
{"CDLENGULFING",7,100,3,{84,124,40,80,104,104,94,96,84,120,68,112}},
{"CDLENGULFING",7,80,3,{100,140,86,88,92,96,83,84,84,100,68,100}},
{"CDLENGULFING",7,80,3,{96,128,88,112,104,108,100,100,80,106,79,104}},
{"CDLEVENINGDOJISTAR",0,-100,13,{100,102,98,100,84,86,76,85,96,101,96,97,100,101,100,100,108,112,99,107,80,84,78,79,92,92,91,91,96,97,96,97,80,88,79,80,88,89,87,87,90,94,86,92,117,117,109,117,93,93,82,84}},
{"CDLEVENINGDOJISTAR",0,-100,13,{96,98,95,95,108,112,103,107,112,112,112,112,104,105,100,105,112,117,110,113,96,96,93,95,88,89,85,87,80,88,76,80,96,97,96,97,108,108,104,108,96,97,95,97,100,104,96,100,80,84,71,79}},
{"CDLEVENINGDOJISTAR",1,-100,4,{104,104,84,92,82,101,80,101,113,117,105,115,110,111,75,83}},
{"CDLEVENINGDOJISTAR",1,-100,4,{104,105,94,94,82,95,82,95,100,104,60,100,104,104,40,80}},
{"CDLEVENINGDOJISTAR",2,-100,5,{104,112,93,93,100,112,100,112,80,100,80,96,112,152,104,112,96,96,80,84}},
{"CDLEVENINGDOJISTAR",2,-100,5,{93,100,93,96,97,101,85,85,88,113,88,112,113,118,113,117,97,101,92,92}},
{"CDLEVENINGDOJISTAR",3,-100,3,{84,112,80,104,108,152,106,112,92,92,78,80}},
{"CDLEVENINGDOJISTAR",3,-100,3,{93,108,93,104,108,108,99,107,96,100,81,82}},
{"CDLEVENINGDOJISTAR",4,-100,6,{84,86,83,83,108,108,107,107,92,94,91,93,84,87,84,85,104,106,100,104,108,112,40,80}},
{"CDLEVENINGDOJISTAR",4,-100,6,{96,109,96,109,100,116,98,108,104,112,84,88,84,102,84,100,112,112,92,108,112,112,80,84}},
{"CDLEVENINGDOJISTAR",5,-100,6,{88,116,72,112,100,100,95,96,100,104,72,88,88,113,88,112,114,120,114,116,101,103,82,82}},
{"CDLEVENINGDOJISTAR",5,-100,6,{96,112,72,88,96,105,94,104,88,96,82,84,88,97,48,96,112,112,106,108,104,106,76,92}},
{"CDLEVENINGDOJISTAR",6,-100,7,{84,84,84,84,108,110,104,108,88,89,80,88,96,98,88,97,80,98,40,96,108,110,108,109,96,98,82,84}},
{"CDLEVENINGDOJISTAR",6,-100,7,{84,97,76,96,100,104,82,84,96,116,96,108,80,120,79,80,92,111,92,111,116,124,105,113,115,115,87,91}},
{"CDLEVENINGDOJISTAR",7,-100,5,{100,118,100,116,96,96,73,81,80,94,78,94,108,109,106,107,99,99,88,88}},
{"CDLEVENINGDOJISTAR",7,-100,5,{108,112,80,80,100,101,99,100,80,136,72,96,104,112,96,108,104,144,80,80}},
{"CDLEVENINGSTAR",0,-100,13,{100,113,100,112,104,105,89,89,100,121,92,113,96,109,96,109,96,104,74,82,96,96,78,86,104,105,86,88,96,100,87,87,100,102,86,86,100,100,80,88,96,112,95,110,112,113,109,111,119,127,103,105}},
{"CDLEVENINGSTAR",0,-100,13,{96,116,88,112,96,108,92,108,100,100,88,88,96,96,72,80,100,112,99,104,108,116,84,92,112,113,72,88,112,152,108,112,96,136,78,80,96,136,64,80,84,108,83,100,104,109,64,108,104,106,84,88}},
{"CDLEVENINGSTAR",1,-100,4,{104,108,88,108,84,132,83,92,104,128,104,112,112,114,83,84}},
{"CDLEVENINGSTAR",1,-100,4,{104,108,88,108,96,108,94,108,116,118,101,109,108,108,97,97}},
{"CDLEVENINGSTAR",2,-100,5,{100,102,80,88,100,101,88,92,80,96,72,92,108,116,106,108,96,136,88,88}},
{"CDLEVENINGSTAR",2,-100,5,{100,102,80,88,100,101,88,92,84,105,76,104,112,112,107,111,92,92,72,80}},
{"CDLEVENINGSTAR",3,-100,3,{81,98,81,96,104,113,103,105,88,88,87,87}},
{"CDLEVENINGSTAR",3,-100,3,{88,93,88,92,104,119,104,111,104,104,81,89}},
{"CDLEVENINGSTAR",4,-100,6,{104,112,103,103,112,117,110,113,92,95,91,93,92,106,90,102,109,113,104,106,114,122,88,92}},
{"CDLEVENINGSTAR",4,-100,6,{104,115,103,115,100,123,92,115,100,100,87,87,84,96,84,96,98,103,98,101,115,123,89,89}},
{"CDLEVENINGSTAR",5,-100,6,{100,110,96,110,96,115,96,111,104,116,100,116,81,110,81,109,119,120,109,117,118,119,99,99}},
{"CDLEVENINGSTAR",5,-100,6,{88,89,80,89,80,84,79,79,96,100,88,96,81,108,80,100,104,110,100,109,103,105,89,89}},
{"CDLEVENINGSTAR",6,-100,7,{100,109,96,109,100,100,88,92,104,119,103,119,96,100,81,83,86,110,82,102,108,108,102,104,108,112,88,92}},
{"CDLEVENINGSTAR",6,-100,7,{86,125,85,117,85,107,83,105,83,109,82,105,103,108,95,108,84,104,84,100,112,114,112,112,104,106,48,88}},
{"CDLEVENINGSTAR",7,-100,5,{108,112,88,104,108,114,107,112,80,100,79,100,112,128,110,112,108,108,87,88}},
{"CDLEVENINGSTAR",7,-100,5,{85,110,85,102,111,111,76,84,88,112,48,104,112,113,112,113,116,118,90,90}},
{"CDLGAPSIDESIDEWHITE",0,-100,8,{80,85,64,84,84,112,84,112,104,106,94,96,100,116,80,80,104,106,84,100,100,104,100,100,96,98,92,96,96,104,96,96}},
{"CDLGAPSIDESIDEWHITE",0,-100,8,{80,85,64,84,84,112,84,112,104,106,94,96,100,116,80,80,104,106,84,100,104,108,99,103,96,96,96,96,96,101,94,97}},
{"CDLGAPSIDESIDEWHITE",0,100,8,{89,96,89,96,100,120,92,116,81,109,77,107,117,119,77,85,108,109,89,97,96,100,96,96,100,109,100,101,100,102,92,100}},
{"CDLGAPSIDESIDEWHITE",0,100,8,{96,136,79,80,112,116,52,92,84,132,68,92,96,108,92,104,84,86,80,80,88,92,87,87,100,109,96,101,100,103,92,101}},
{"CDLGAPSIDESIDEWHITE",1,-100,4,{100,103,100,101,108,110,106,107,104,107,104,105,104,104,103,104}},
{"CDLGAPSIDESIDEWHITE",1,-100,4,{84,112,76,112,104,109,104,105,92,94,90,93,92,93,91,92}},
{"CDLGAPSIDESIDEWHITE",1,100,4,{80,120,80,80,108,109,105,107,112,113,108,112,112,116,111,112}},
{"CDLGAPSIDESIDEWHITE",1,100,4,{96,97,88,92,88,93,80,89,96,98,94,96,96,104,95,96}},
{"CDLGAPSIDESIDEWHITE",2,-100,5,{104,106,84,88,108,152,106,112,112,128,103,104,88,100,72,100,88,92,88,92}},
{"CDLGAPSIDESIDEWHITE",2,-100,5,{108,112,92,96,104,105,40,80,108,113,104,109,92,92,92,92,92,93,92,93}},
{"CDLGAPSIDESIDEWHITE",2,100,5,{108,112,92,96,104,105,40,80,88,88,80,80,100,111,100,109,100,120,92,112}},
{"CDLGAPSIDESIDEWHITE",2,100,5,{96,111,92,111,104,113,104,113,80,81,80,81,112,114,112,112,112,112,112,112}},
{"CDLGAPSIDESIDEWHITE",3,-100,3,{100,104,92,100,84,85,82,84,84,85,83,84}},
{"CDLGAPSIDESIDEWHITE",3,-100,3,{108,109,88,96,80,132,40,92,88,104,88,88}},
{"CDLGAPSIDESIDEWHITE",3,100,3,{96,104,83,83,100,120,100,116,100,124,98,116}},
{"CDLGAPSIDESIDEWHITE",3,100,3,{96,96,77,85,100,112,92,112,100,115,99,113}},
{"CDLGAPSIDESIDEWHITE",4,-100,6,{104,112,80,80,80,101,78,100,100,108,96,108,104,117,103,115,84,85,80,84,84,128,83,88}},
{"CDLGAPSIDESIDEWHITE",4,-100,6,{91,106,87,102,101,110,101,108,95,115,95,107,112,113,110,113,80,82,80,80,80,85,79,81}},
{"CDLGAPSIDESIDEWHITE",4,100,6,{104,108,52,92,88,90,84,84,108,148,48,88,92,95,91,93,100,108,100,100,100,101,98,101}},
{"CDLGAPSIDESIDEWHITE",4,100,6,{104,112,80,80,80,101,78,100,100,108,96,108,96,97,84,84,100,113,100,109,100,113,100,113}},
{"CDLGAPSIDESIDEWHITE",5,-100,6,{104,104,90,92,96,120,96,104,100,108,72,88,104,106,100,105,80,88,79,80,80,81,80,80}},
{"CDLGAPSIDESIDEWHITE",5,-100,6,{104,104,90,92,96,120,96,104,100,108,72,88,88,89,80,89,80,81,72,80,80,88,80,80}},
{"CDLGAPSIDESIDEWHITE",5,100,6,{97,98,80,81,106,110,91,91,116,117,113,115,80,80,77,79,88,90,88,88,88,89,80,88}},
{"CDLGAPSIDESIDEWHITE",5,100,6,{97,98,80,81,106,110,91,91,116,117,113,115,96,104,95,96,100,101,96,101,100,101,100,101}},
{"CDLGAPSIDESIDEWHITE",6,-100,7,{111,121,111,113,105,107,86,86,113,117,89,97,99,99,83,84,100,108,99,100,80,81,79,81,80,81,79,81}},
{"CDLGAPSIDESIDEWHITE",6,-100,7,{112,115,111,113,84,84,76,84,80,88,79,79,84,86,83,83,104,104,104,104,92,96,92,92,92,92,90,92}},
{"CDLGAPSIDESIDEWHITE",6,100,7,{104,121,104,117,96,112,96,111,100,112,92,111,96,104,79,80,84,86,82,85,100,101,98,101,100,100,100,100}},
{"CDLGAPSIDESIDEWHITE",6,100,7,{104,121,104,117,96,112,96,111,100,112,92,111,96,104,79,80,88,92,86,87,96,97,92,96,96,105,88,97}},
{"CDLGAPSIDESIDEWHITE",7,-100,5,{112,112,104,104,80,116,40,100,100,104,100,104,88,92,84,88,84,90,44,88}},
{"CDLGAPSIDESIDEWHITE",7,-100,5,{112,112,104,104,80,116,40,100,104,106,104,104,92,100,90,92,96,100,94,96}},
{"CDLGAPSIDESIDEWHITE",7,100,5,{104,108,100,104,80,82,71,79,80,88,77,79,112,115,108,113,112,121,112,113}},
{"CDLGAPSIDESIDEWHITE",7,100,5,{112,112,104,104,80,116,40,100,92,94,92,92,108,108,106,108,104,113,103,105}},
{"CDLGRAVESTONEDOJI",0,100,11,{92,120,91,104,88,92,48,92,96,101,88,100,100,100,91,92,104,105,82,84,80,104,80,104,96,101,94,100,100,152,98,112,112,128,104,108,80,116,78,112,104,108,104,104}},
{"CDLGRAVESTONEDOJI",0,100,11,{92,120,91,104,88,92,48,92,96,101,88,100,100,100,91,92,104,105,82,84,80,104,80,104,96,101,94,100,100,152,98,112,112,128,104,108,80,116,78,112,88,92,85,87}},
{"CDLGRAVESTONEDOJI",1,100,2,{117,117,85,85,101,109,99,99}},
{"CDLGRAVESTONEDOJI",1,100,2,{117,117,85,85,104,113,104,105}},
{"CDLGRAVESTONEDOJI",2,100,3,{100,113,98,113,104,120,96,120,108,116,104,108}},
{"CDLGRAVESTONEDOJI",2,100,3,{100,113,98,113,104,120,96,120,96,104,92,96}},
{"CDLGRAVESTONEDOJI",3,100,1,{80,96,79,80}},
{"CDLGRAVESTONEDOJI",3,100,1,{96,105,96,97}},
{"CDLGRAVESTONEDOJI",4,100,3,{96,112,96,108,100,108,85,89,80,82,80,80}},
{"CDLGRAVESTONEDOJI",4,100,3,{96,112,96,108,100,108,85,89,96,100,95,95}},
{"CDLGRAVESTONEDOJI",5,100,3,{104,108,90,92,100,116,99,112,108,112,106,108}},
{"CDLGRAVESTONEDOJI",5,100,3,{104,108,90,92,100,116,99,112,108,116,107,107}},
{"CDLGRAVESTONEDOJI",6,100,5,{100,112,60,108,112,113,92,96,96,104,96,96,96,104,96,104,104,112,103,104}},
{"CDLGRAVESTONEDOJI",6,100,5,{100,112,60,108,112,113,92,96,96,104,96,96,96,104,96,104,84,100,83,84}},
{"CDLGRAVESTONEDOJI",7,100,3,{112,117,112,113,88,92,83,87,117,120,117,118}},
{"CDLGRAVESTONEDOJI",7,100,3,{112,117,112,113,88,92,83,87,92,93,91,91}},
{"CDLHAMMER",0,100,12,{84,88,82,88,108,110,102,104,84,132,44,92,96,112,96,112,104,106,80,88,100,140,90,92,88,92,72,92,100,152,98,112,88,104,80,96,92,144,76,104,104,108,101,103,88,89,86,89}},
{"CDLHAMMER",0,100,12,{84,88,82,88,108,110,102,104,84,132,44,92,96,112,96,112,104,106,80,88,100,140,90,92,88,92,72,92,100,152,98,112,88,104,80,96,92,144,76,104,96,104,87,87,88,88,72,88}},
{"CDLHAMMER",1,100,3,{108,110,72,80,109,111,85,85,89,92,81,92}},
{"CDLHAMMER",1,100,3,{96,97,83,83,101,112,101,112,96,97,88,96}},
{"CDLHAMMER",2,100,4,{108,108,107,108,108,124,100,108,86,90,84,84,84,85,79,83}},
{"CDLHAMMER",2,100,4,{96,108,94,108,112,116,98,100,98,106,98,104,93,93,80,88}},
{"CDLHAMMER",3,100,2,{108,110,106,109,84,84,76,84}},
{"CDLHAMMER",3,100,2,{84,116,76,108,80,86,40,84}},
{"CDLHAMMER",4,100,5,{104,104,95,95,104,104,88,88,104,118,104,118,100,109,96,101,88,88,83,87}},
{"CDLHAMMER",4,100,5,{112,112,112,112,84,116,84,100,108,148,90,92,104,108,104,104,112,112,104,112}},
{"CDLHAMMER",5,100,4,{100,109,60,108,88,88,84,84,114,122,95,95,84,85,77,81}},
{"CDLHAMMER",5,100,4,{96,104,77,81,96,96,87,87,104,104,98,100,80,80,78,80}},
{"CDLHAMMER",6,100,6,{84,100,84,100,92,108,90,104,96,101,56,100,80,102,78,100,92,102,90,100,84,85,40,80}},
{"CDLHAMMER",6,100,6,{86,117,86,109,85,99,77,99,84,107,84,105,114,116,111,113,100,100,89,91,84,96,76,94}},
{"CDLHAMMER",7,100,4,{96,104,80,80,108,120,108,112,112,120,110,112,112,112,103,111}},
{"CDLHAMMER",7,100,4,{96,104,80,80,108,120,108,112,88,96,84,88,80,80,72,80}},
{"CDLHANGINGMAN",0,-100,12,{104,117,102,115,100,102,86,86,96,109,92,109,104,117,103,117,104,104,95,95,100,104,89,89,100,100,91,91,100,104,80,88,104,118,100,116,96,100,86,86,80,82,75,79,108,108,107,108}},
{"CDLHANGINGMAN",0,-100,12,{104,117,102,115,100,102,86,86,96,109,92,109,104,117,103,117,104,104,95,95,100,104,89,89,100,100,91,91,100,104,80,88,104,118,100,116,96,100,86,86,92,92,91,91,104,105,100,105}},
{"CDLHANGINGMAN",1,-100,3,{92,152,52,112,108,116,78,80,108,112,92,112}},
{"CDLHANGINGMAN",1,-100,3,{92,152,52,112,84,96,76,96,112,113,96,112}},
{"CDLHANGINGMAN",2,-100,4,{91,95,88,88,104,112,86,90,92,101,92,93,104,105,102,104}},
{"CDLHANGINGMAN",2,-100,4,{92,116,84,108,96,112,56,96,108,109,107,107,104,104,96,104}},
{"CDLHANGINGMAN",3,-100,2,{85,107,77,105,116,116,114,116}},
{"CDLHANGINGMAN",3,-100,2,{96,105,88,97,104,104,100,104}},
{"CDLHANGINGMAN",4,-100,5,{84,86,80,84,104,120,84,88,84,85,82,84,80,84,80,84,88,92,80,92}},
{"CDLHANGINGMAN",4,-100,5,{84,86,80,84,104,120,84,88,84,85,82,84,84,100,82,96,96,96,80,96}},
{"CDLHANGINGMAN",5,-100,4,{104,106,93,95,104,115,104,115,92,96,90,92,96,96,94,96}},
{"CDLHANGINGMAN",5,-100,4,{108,109,106,108,96,108,92,100,92,93,91,92,108,109,104,109}},
{"CDLHANGINGMAN",6,-100,6,{114,117,114,116,110,111,110,111,88,104,88,102,103,104,97,98,88,104,88,104,112,114,100,108}},
{"CDLHANGINGMAN",6,-100,6,{92,96,88,88,104,112,64,104,84,86,44,84,112,112,72,112,84,86,80,85,108,108,100,108}},
{"CDLHANGINGMAN",7,-100,4,{112,112,88,88,96,97,76,80,83,91,75,89,94,102,86,102}},
{"CDLHANGINGMAN",7,-100,4,{112,112,88,88,96,97,76,80,96,96,84,84,112,114,96,104}},
{"CDLHARAMI",0,-100,12,{108,110,107,108,100,104,98,99,108,112,106,108,88,89,86,88,88,90,85,87,108,110,108,109,96,100,92,96,100,108,97,99,84,84,79,83,88,92,86,87,87,118,87,118,110,111,108,111}},
{"CDLHARAMI",0,-100,12,{96,100,78,80,96,116,94,108,100,115,92,111,96,96,87,87,104,117,104,116,100,100,79,87,104,114,100,114,104,118,100,114,96,114,96,106,100,120,100,116,89,117,88,117,99,104,91,100}},
{"CDLHARAMI",0,-80,12,{100,116,99,112,96,116,88,112,100,113,100,112,104,120,102,112,104,104,92,92,104,105,89,93,104,106,91,92,104,105,85,89,96,116,96,108,104,105,91,95,100,113,92,112,100,111,98,111}},
{"CDLHARAMI",0,-80,12,{100,116,99,112,96,116,88,112,100,113,100,112,104,120,102,112,104,104,92,92,104,105,89,93,104,106,91,92,104,105,85,89,96,116,96,108,104,105,91,95,92,152,52,112,92,120,76,104}},
{"CDLHARAMI",0,100,12,{100,116,99,112,96,116,88,112,100,113,100,112,104,120,102,112,104,104,92,92,104,105,89,93,104,106,91,92,104,105,85,89,96,116,96,108,104,105,91,95,104,104,80,80,84,124,82,84}},
{"CDLHARAMI",0,100,12,{100,116,99,112,96,116,88,112,100,113,100,112,104,120,102,112,104,104,92,92,104,105,89,93,104,106,91,92,104,105,85,89,96,116,96,108,104,105,91,95,119,119,90,90,102,118,98,110}},
{"CDLHARAMI",0,80,12,{119,119,85,89,87,88,83,88,118,120,112,114,86,100,82,99,85,109,81,107,118,126,107,115,91,91,81,83,83,98,75,96,118,126,112,113,113,113,99,99,108,108,72,88,88,89,88,88}},
{"CDLHARAMI",0,80,12,{119,119,85,89,87,88,83,88,118,120,112,114,86,100,82,99,85,109,81,107,118,126,107,115,91,91,81,83,83,98,75,96,118,126,112,113,113,113,99,99,96,98,76,80,96,98,72,88}},
{"CDLHARAMI",1,-100,3,{80,81,76,81,80,113,40,112,104,120,80,84}},
{"CDLHARAMI",1,-100,3,{80,81,76,81,88,114,80,112,96,109,92,108}},
{"CDLHARAMI",1,-80,3,{80,81,76,81,104,122,100,118,104,125,103,117}},
{"CDLHARAMI",1,-80,3,{80,81,76,81,84,116,84,108,100,110,84,108}},
{"CDLHARAMI",1,100,3,{104,106,83,84,108,112,78,80,92,105,52,104}},
{"CDLHARAMI",1,100,3,{80,81,76,81,113,121,82,90,110,118,100,104}},
{"CDLHARAMI",1,80,3,{80,104,64,100,108,108,64,80,80,96,72,80}},
{"CDLHARAMI",1,80,3,{80,81,76,81,108,109,87,88,108,110,86,88}},
{"CDLHARAMI",2,-100,4,{100,104,88,89,100,101,85,87,100,117,99,116,104,118,100,114}},
{"CDLHARAMI",2,-100,4,{100,104,88,89,100,101,85,87,94,122,94,114,112,116,104,106}},
{"CDLHARAMI",2,-80,4,{100,104,88,89,100,101,85,87,104,125,100,117,104,114,104,112}},
{"CDLHARAMI",2,-80,4,{100,104,88,89,100,101,85,87,84,105,83,104,104,106,104,104}},
{"CDLHARAMI",2,100,4,{100,104,88,89,100,101,85,87,118,119,80,82,115,115,87,87}},
{"CDLHARAMI",2,100,4,{100,104,88,89,100,101,85,87,118,126,78,80,115,119,85,85}},
{"CDLHARAMI",2,80,4,{100,104,88,89,100,101,85,87,112,128,92,92,92,109,84,108}},
{"CDLHARAMI",2,80,4,{80,100,64,100,108,148,88,92,112,116,72,80,112,152,80,96}},
{"CDLHARAMI",3,-100,2,{80,112,78,104,96,136,92,92}},
{"CDLHARAMI",3,-100,2,{88,112,88,104,100,100,84,92}},
{"CDLHARAMI",3,-80,2,{96,111,92,110,96,105,88,104}},
{"CDLHARAMI",3,-80,2,{96,116,96,112,104,120,100,112}},
{"CDLHARAMI",3,100,2,{110,118,99,99,108,109,100,109}},
{"CDLHARAMI",3,100,2,{114,114,81,81,94,102,83,85}},
{"CDLHARAMI",3,80,2,{100,100,83,87,96,104,79,87}},
{"CDLHARAMI",3,80,2,{104,104,84,92,92,92,92,92}},
{"CDLHARAMI",4,-100,5,{80,123,78,119,96,97,81,81,116,116,83,91,86,125,78,117,104,114,96,114}},
{"CDLHARAMI",4,-100,5,{80,123,78,119,96,97,81,81,116,116,83,91,96,112,96,112,108,148,100,104}},
{"CDLHARAMI",4,-80,5,{80,123,78,119,96,97,81,81,116,116,83,91,84,105,80,104,104,108,96,96}},
{"CDLHARAMI",4,-80,5,{80,123,78,119,96,97,81,81,116,116,83,91,96,112,80,112,104,108,96,96}},
{"CDLHARAMI",4,100,5,{108,108,80,84,88,88,83,84,92,104,92,100,112,113,78,80,92,100,92,100}},
{"CDLHARAMI",4,100,5,{108,108,80,84,88,88,83,84,92,104,92,100,112,120,84,84,96,105,96,104}},
{"CDLHARAMI",4,80,5,{80,123,78,119,96,97,81,81,116,116,83,91,112,112,104,104,104,105,64,104}},
{"CDLHARAMI",4,80,5,{80,123,78,119,96,97,81,81,116,116,83,91,96,96,82,84,92,96,68,84}},
{"CDLHARAMI",5,-100,5,{104,104,88,90,104,119,104,118,104,120,96,120,83,118,82,118,97,97,90,92}},
{"CDLHARAMI",5,-100,5,{104,106,99,100,80,144,80,104,80,152,79,112,80,116,80,112,100,100,88,88}},
{"CDLHARAMI",5,-80,5,{104,104,88,90,104,119,104,118,104,120,96,120,80,128,78,112,96,112,94,112}},
{"CDLHARAMI",5,-80,5,{104,106,99,100,80,144,80,104,80,152,79,112,84,110,80,108,84,100,76,96}},
{"CDLHARAMI",5,100,5,{104,106,99,100,80,144,80,104,80,152,79,112,112,120,83,87,107,119,106,111}},
{"CDLHARAMI",5,100,5,{104,106,99,100,80,144,80,104,80,152,79,112,116,118,83,83,110,114,97,97}},
{"CDLHARAMI",5,80,5,{104,104,88,90,104,119,104,118,104,120,96,120,104,106,81,89,104,104,88,92}},
{"CDLHARAMI",5,80,5,{104,106,99,100,80,144,80,104,80,152,79,112,112,114,80,80,80,86,79,84}},
{"CDLHARAMI",6,-100,6,{88,104,80,104,112,152,52,92,108,112,106,108,84,101,82,100,91,114,91,112,100,107,96,103}},
{"CDLHARAMI",6,-100,6,{88,104,80,104,112,152,52,92,108,112,106,108,84,101,82,100,92,113,90,109,93,101,93,99}},
{"CDLHARAMI",6,-80,6,{88,104,80,104,112,152,52,92,108,112,106,108,84,101,82,100,80,112,72,112,96,96,72,80}},
{"CDLHARAMI",6,-80,6,{92,104,88,104,80,106,40,104,104,120,100,100,96,104,80,104,88,101,48,100,96,100,86,88}},
{"CDLHARAMI",6,100,6,{92,110,92,108,104,108,79,80,108,112,76,92,80,108,80,108,118,122,80,82,96,109,96,107}},
{"CDLHARAMI",6,100,6,{92,110,92,108,104,108,79,80,108,112,76,92,80,108,80,108,119,127,84,85,106,110,89,91}},
{"CDLHARAMI",6,80,6,{92,104,88,104,80,106,40,104,104,120,100,100,96,104,80,104,100,102,79,87,100,102,86,90}},
{"CDLHARAMI",6,80,6,{92,104,88,104,80,106,40,104,104,120,100,100,96,104,80,104,96,96,73,81,96,96,87,87}},
{"CDLHARAMI",7,-100,4,{82,88,82,88,99,99,74,82,84,120,84,112,104,104,88,88}},
{"CDLHARAMI",7,-100,4,{82,88,82,88,99,99,74,82,84,121,76,119,96,117,94,116}},
{"CDLHARAMI",7,-80,4,{82,88,82,88,99,99,74,82,91,105,87,101,92,103,88,101}},
{"CDLHARAMI",7,-80,4,{82,88,82,88,99,99,74,82,96,112,92,112,104,112,96,112}},
{"CDLHARAMI",7,100,4,{82,88,82,88,99,99,74,82,108,108,84,84,100,102,96,100}},
{"CDLHARAMI",7,100,4,{82,88,82,88,99,99,74,82,113,115,91,93,104,109,103,109}},
{"CDLHARAMI",7,80,4,{82,88,82,88,99,99,74,82,112,112,100,100,112,152,104,108}},
{"CDLHARAMI",7,80,4,{82,88,82,88,99,99,74,82,116,120,96,96,110,116,108,116}},
{"CDLHARAMICROSS",0,-100,12,{81,116,81,115,107,113,107,109,91,107,89,106,110,114,110,113,81,106,77,98,91,95,82,83,88,98,86,97,93,108,93,106,111,115,95,99,89,103,85,102,88,114,48,112,100,100,60,100}},
{"CDLHARAMICROSS",0,-100,12,{88,88,88,88,96,97,95,95,112,114,104,112,104,112,103,103,96,98,95,96,108,117,107,109,88,96,88,88,88,89,79,87,92,96,87,91,108,110,103,107,88,119,80,118,93,101,92,93}},
{"CDLHARAMICROSS",0,-80,12,{112,117,111,113,96,96,88,96,80,81,80,80,84,92,83,83,84,84,83,83,92,93,92,92,96,98,93,95,96,96,92,96,92,93,91,93,92,93,91,93,96,102,92,100,96,100,94,96}},
{"CDLHARAMICROSS",0,-80,12,{96,116,92,112,108,124,104,104,96,104,88,88,92,92,84,88,92,94,76,80,92,92,87,88,96,97,72,88,108,116,76,92,80,96,40,88,100,140,48,88,84,116,76,108,84,85,84,84}},
{"CDLHARAMICROSS",0,100,12,{100,102,96,100,84,86,40,80,92,92,79,80,80,93,76,92,108,109,79,80,96,136,80,80,84,84,80,80,100,104,96,96,96,140,56,100,104,152,88,112,104,105,86,90,96,104,88,96}},
{"CDLHARAMICROSS",0,100,12,{112,120,108,112,84,84,82,83,108,112,108,108,88,97,88,89,104,108,102,104,84,86,81,83,100,101,99,100,112,113,112,112,100,101,98,99,80,88,76,80,101,102,81,83,92,92,88,92}},
{"CDLHARAMICROSS",0,80,12,{84,84,83,83,80,80,78,80,112,115,104,113,92,94,92,92,104,108,101,103,96,96,94,96,100,108,100,100,112,121,108,113,100,101,99,100,112,113,110,111,104,108,102,103,104,112,103,104}},
{"CDLHARAMICROSS",0,80,12,{88,88,88,88,96,97,95,95,112,114,104,112,104,112,103,103,96,98,95,96,108,117,107,109,88,96,88,88,88,89,79,87,92,96,87,91,108,110,103,107,100,108,85,85,100,104,92,100}},
{"CDLHARAMICROSS",1,-100,3,{92,94,84,93,100,120,100,112,104,105,104,105}},
{"CDLHARAMICROSS",1,-100,3,{92,94,84,93,97,115,97,114,108,108,108,108}},
{"CDLHARAMICROSS",1,-80,3,{100,101,89,91,92,112,91,108,108,108,100,108}},
{"CDLHARAMICROSS",1,-80,3,{104,111,102,109,88,136,88,96,96,136,96,96}},
{"CDLHARAMICROSS",1,100,3,{100,101,89,91,112,114,40,80,88,89,82,84}},
{"CDLHARAMICROSS",1,100,3,{84,85,84,84,96,96,84,85,92,95,88,93}},
{"CDLHARAMICROSS",1,80,3,{100,108,100,108,112,152,44,84,84,86,80,85}},
{"CDLHARAMICROSS",1,80,3,{96,102,95,100,112,120,96,96,96,98,56,96}},
{"CDLHARAMICROSS",2,-100,4,{100,100,92,92,92,108,91,100,84,104,44,104,96,104,86,88}},
{"CDLHARAMICROSS",2,-100,4,{88,88,87,88,80,104,78,104,80,148,80,108,96,100,92,96}},
{"CDLHARAMICROSS",2,-80,4,{115,116,97,105,119,121,92,93,80,114,40,112,80,104,80,88}},
{"CDLHARAMICROSS",2,-80,4,{88,88,87,88,80,104,78,104,92,116,92,108,108,116,107,107}},
{"CDLHARAMICROSS",2,100,4,{115,116,97,105,119,121,92,93,113,113,83,83,106,109,105,109}},
{"CDLHARAMICROSS",2,100,4,{92,108,52,100,108,109,80,84,113,113,77,81,90,96,89,92}},
{"CDLHARAMICROSS",2,80,4,{100,100,92,92,92,108,91,100,112,112,92,92,112,112,110,112}},
{"CDLHARAMICROSS",2,80,4,{92,108,52,100,108,109,80,84,112,128,79,80,104,152,104,112}},
{"CDLHARAMICROSS",3,-100,2,{101,108,101,107,104,105,103,104}},
{"CDLHARAMICROSS",3,-100,2,{88,108,80,108,100,100,92,100}},
{"CDLHARAMICROSS",3,-80,2,{80,112,80,112,112,152,72,112}},
{"CDLHARAMICROSS",3,-80,2,{80,114,72,112,112,113,110,112}},
{"CDLHARAMICROSS",3,100,2,{104,112,80,81,88,90,86,88}},
{"CDLHARAMICROSS",3,100,2,{112,113,88,92,108,124,108,108}},
{"CDLHARAMICROSS",3,80,2,{105,107,93,93,104,113,104,105}},
{"CDLHARAMICROSS",3,80,2,{108,112,80,84,108,110,106,108}},
{"CDLHARAMICROSS",4,-100,4,{93,105,89,105,105,109,99,99,93,116,93,114,100,109,96,101}},
{"CDLHARAMICROSS",4,-100,4,{96,100,90,90,87,89,86,86,88,113,84,112,104,105,102,104}},
{"CDLHARAMICROSS",4,-80,4,{100,144,96,104,80,101,72,100,80,120,72,104,80,81,76,81}},
{"CDLHARAMICROSS",4,-80,4,{96,100,90,90,87,89,86,86,80,136,64,96,96,96,80,96}},
{"CDLHARAMICROSS",4,100,4,{96,100,90,90,87,89,86,86,104,104,68,84,88,88,48,88}},
{"CDLHARAMICROSS",4,100,4,{96,100,90,90,87,89,86,86,112,114,80,80,96,97,94,96}},
{"CDLHARAMICROSS",4,80,4,{112,116,79,80,104,112,100,108,100,100,84,84,100,100,99,100}},
{"CDLHARAMICROSS",4,80,4,{96,100,90,90,87,89,86,86,108,112,84,84,108,108,107,107}},
{"CDLHARAMICROSS",5,-100,5,{104,108,90,92,104,104,88,88,104,115,100,114,81,101,81,97,95,103,91,95}},
{"CDLHARAMICROSS",5,-100,5,{104,148,64,108,100,116,87,88,84,86,76,84,100,113,100,112,104,120,96,104}},
{"CDLHARAMICROSS",5,-80,5,{80,80,76,80,92,93,88,92,84,92,75,83,88,120,48,112,92,108,72,88}},
{"CDLHARAMICROSS",5,-80,5,{96,97,96,97,104,106,100,104,104,113,103,105,104,107,96,105,104,105,103,105}},
{"CDLHARAMICROSS",5,100,5,{104,148,64,108,100,116,87,88,84,86,76,84,119,119,86,87,98,102,96,100}},
{"CDLHARAMICROSS",5,100,5,{96,97,96,97,104,106,100,104,104,113,103,105,119,120,80,82,108,116,106,108}},
{"CDLHARAMICROSS",5,80,5,{104,108,90,92,104,104,88,88,104,115,100,114,117,117,97,97,97,99,89,97}},
{"CDLHARAMICROSS",5,80,5,{96,97,96,97,104,106,100,104,104,113,103,105,92,100,90,91,92,96,91,92}},
{"CDLHARAMICROSS",6,-100,6,{108,110,107,108,112,116,108,112,112,112,109,111,100,100,98,100,88,112,80,112,108,124,68,108}},
{"CDLHARAMICROSS",6,-100,6,{92,112,84,96,96,136,76,92,88,108,86,108,84,128,84,88,84,112,44,108,96,108,80,104}},
{"CDLHARAMICROSS",6,-80,6,{84,92,82,83,100,102,100,101,96,96,87,95,80,81,80,81,88,92,84,92,92,108,92,92}},
{"CDLHARAMICROSS",6,-80,6,{92,112,84,96,96,136,76,92,88,108,86,108,84,128,84,88,80,96,40,88,88,88,88,88}},
{"CDLHARAMICROSS",6,100,6,{108,110,107,108,112,116,108,112,112,112,109,111,100,100,98,100,109,109,84,86,102,104,94,104}},
{"CDLHARAMICROSS",6,100,6,{108,110,107,108,112,116,108,112,112,112,109,111,100,100,98,100,112,113,88,88,100,104,99,100}},
{"CDLHARAMICROSS",6,80,6,{112,113,108,108,104,120,104,104,100,140,82,84,84,88,80,88,104,112,88,92,92,104,91,96}},
{"CDLHARAMICROSS",6,80,6,{112,113,108,108,104,120,104,104,100,140,82,84,84,88,80,88,108,124,88,88,88,92,88,88}},
{"CDLHARAMICROSS",7,-100,4,{80,89,72,81,100,108,96,100,87,100,87,96,88,91,84,89}},
{"CDLHARAMICROSS",7,-100,4,{88,105,72,104,80,96,80,96,90,120,86,112,100,100,99,99}},
{"CDLHARAMICROSS",7,-80,4,{108,124,80,84,96,96,84,88,80,124,40,108,80,85,80,84}},
{"CDLHARAMICROSS",7,-80,4,{80,80,78,80,92,108,88,100,88,101,88,101,88,91,84,89}},
{"CDLHARAMICROSS",7,100,4,{104,106,52,92,104,152,104,112,112,128,80,80,96,140,80,100}},
{"CDLHARAMICROSS",7,100,4,{108,110,88,104,88,104,88,104,104,108,64,80,100,108,100,100}},
{"CDLHARAMICROSS",7,80,4,{104,106,52,92,104,152,104,112,108,110,40,80,108,112,107,108}},
{"CDLHARAMICROSS",7,80,4,{104,106,52,92,104,152,104,112,112,128,44,84,112,113,103,104}},
{"CDLHIGHWAVE",0,-100,11,{84,116,83,108,95,95,83,84,112,112,86,86,89,105,81,105,81,113,73,113,87,87,82,84,110,112,109,109,119,120,102,110,83,115,79,107,84,114,80,110,92,100,83,91}},
{"CDLHIGHWAVE",0,-100,11,{84,116,83,108,95,95,83,84,112,112,86,86,89,105,81,105,81,113,73,113,87,87,82,84,110,112,109,109,119,120,102,110,83,115,79,107,84,114,80,110,96,100,87,95}},
{"CDLHIGHWAVE",0,100,11,{80,97,80,96,92,112,90,108,112,113,82,84,80,100,72,92,100,100,72,80,84,112,82,112,112,114,82,84,100,100,92,96,96,104,96,100,104,106,94,96,96,105,88,97}},
{"CDLHIGHWAVE",0,100,11,{80,97,80,96,92,112,90,108,112,113,82,84,80,100,72,92,100,100,72,80,84,112,82,112,112,114,82,84,100,100,92,96,96,104,96,100,104,106,94,96,96,105,92,97}},
{"CDLHIGHWAVE",1,-100,2,{84,113,68,112,84,88,75,83}},
{"CDLHIGHWAVE",1,-100,2,{84,113,68,112,95,103,84,92}},
{"CDLHIGHWAVE",1,100,2,{104,106,90,90,108,109,92,108}},
{"CDLHIGHWAVE",1,100,2,{84,113,68,112,108,109,107,108}},
{"CDLHIGHWAVE",2,-100,3,{100,102,80,88,96,110,92,108,108,148,64,104}},
{"CDLHIGHWAVE",2,-100,3,{92,96,84,88,100,148,98,108,104,144,60,100}},
{"CDLHIGHWAVE",2,100,3,{108,110,100,109,104,108,102,103,104,108,102,104}},
{"CDLHIGHWAVE",2,100,3,{108,110,100,109,104,108,102,103,96,100,92,96}},
{"CDLHIGHWAVE",4,-100,4,{82,104,82,104,108,109,89,89,106,108,98,98,112,114,100,104}},
{"CDLHIGHWAVE",4,-100,4,{82,104,82,104,108,109,89,89,106,108,98,98,96,104,87,95}},
{"CDLHIGHWAVE",4,100,4,{82,104,82,104,108,109,89,89,106,108,98,98,104,112,102,104}},
{"CDLHIGHWAVE",4,100,4,{82,104,82,104,108,109,89,89,106,108,98,98,80,90,76,88}},
{"CDLHIGHWAVE",5,-100,3,{100,118,98,116,104,122,102,114,104,108,99,103}},
{"CDLHIGHWAVE",5,-100,3,{112,113,100,100,88,100,86,100,92,100,87,91}},
{"CDLHIGHWAVE",5,100,3,{88,108,48,108,80,112,76,96,88,92,86,88}},
{"CDLHIGHWAVE",5,100,3,{88,108,48,108,80,112,76,96,96,98,92,96}},
{"CDLHIGHWAVE",6,-100,5,{100,102,90,92,88,110,84,108,88,88,80,80,92,96,48,88,104,112,92,100}},
{"CDLHIGHWAVE",6,-100,5,{104,112,100,112,108,110,80,80,104,104,79,80,96,104,76,84,96,112,44,84}},
{"CDLHIGHWAVE",6,100,5,{108,113,108,109,84,86,83,85,80,85,79,81,96,97,95,95,112,120,104,112}},
{"CDLHIGHWAVE",6,100,5,{108,113,108,109,84,86,83,85,80,85,79,81,96,97,95,95,96,112,56,96}},
{"CDLHIGHWAVE",7,-100,3,{88,90,84,84,104,112,95,96,108,116,99,107}},
{"CDLHIGHWAVE",7,-100,3,{96,111,96,107,100,104,92,92,88,104,40,80}},
{"CDLHIGHWAVE",7,100,3,{99,107,99,106,89,122,88,118,88,112,72,96}},
{"CDLHIGHWAVE",7,100,3,{99,107,99,106,89,122,88,118,96,124,80,108}},
{"CDLHIKKAKE",0,-100,6,{104,121,103,120,100,122,100,114,100,108,96,108,100,120,92,116,100,117,100,109,104,121,102,119}},
{"CDLHIKKAKE",0,-100,6,{114,116,100,108,87,118,79,116,94,98,73,81,101,101,78,82,81,91,81,83,98,114,97,114}},
{"CDLHIKKAKE",0,-200,6,{104,108,86,88,100,104,92,92,100,114,98,113,96,110,96,109,104,113,102,113,96,100,85,87}},
{"CDLHIKKAKE",0,-200,6,{84,89,83,85,84,88,84,84,100,102,96,100,104,105,96,105,100,105,100,101,80,82,78,80}},
{"CDLHIKKAKE",0,100,6,{80,84,64,80,80,108,40,92,104,144,92,92,112,112,80,80,108,108,100,108,88,98,86,96}},
{"CDLHIKKAKE",0,100,6,{97,105,83,83,81,104,79,100,88,118,87,110,86,119,85,117,95,105,93,101,85,93,84,93}},
{"CDLHIKKAKE",0,200,6,{100,106,100,104,112,152,80,96,100,101,90,92,92,94,84,92,80,100,40,100,96,104,95,104}},
{"CDLHIKKAKE",0,200,6,{99,100,89,93,81,84,80,82,90,90,73,81,83,83,75,83,80,82,72,82,92,114,84,110}},
{"CDLHIKKAKE",1,-100,6,{104,116,96,114,108,108,107,108,104,106,94,96,104,144,76,92,80,97,80,96,112,113,111,113}},
{"CDLHIKKAKE",1,-100,6,{80,88,75,79,80,120,40,104,104,116,104,112,100,100,79,87,92,96,83,84,96,110,94,110}},
{"CDLHIKKAKE",1,-200,6,{104,106,84,84,84,85,76,84,104,104,86,90,102,102,91,91,106,119,104,115,81,87,79,87}},
{"CDLHIKKAKE",1,-200,6,{96,97,92,97,90,125,88,117,97,102,89,102,102,105,101,105,84,95,80,94,97,97,77,81}},
{"CDLHIKKAKE",1,100,6,{111,120,103,112,103,104,96,98,119,127,117,119,117,125,83,83,111,111,92,92,80,103,78,95}},
{"CDLHIKKAKE",1,100,6,{92,110,92,110,98,115,96,115,82,108,82,100,85,119,81,117,104,114,104,112,95,97,82,82}},
{"CDLHIKKAKE",1,200,6,{112,114,64,104,80,120,79,104,84,98,80,96,96,96,64,80,80,97,72,96,84,112,68,108}},
{"CDLHIKKAKE",1,200,6,{96,105,92,97,104,118,102,118,94,111,86,110,108,110,104,104,84,85,82,85,88,152,87,112}},
{"CDLHIKKAKE",2,-100,6,{100,102,84,88,96,113,96,111,100,100,80,84,104,108,80,88,96,107,92,105,104,122,100,118}},
{"CDLHIKKAKE",2,-100,6,{80,136,40,96,96,97,77,81,111,117,111,117,109,109,98,102,103,105,99,105,112,112,110,112}},
{"CDLHIKKAKE",2,-200,6,{115,119,100,104,99,99,80,84,84,84,83,84,100,108,96,100,104,112,96,112,98,102,82,82}},
{"CDLHIKKAKE",2,-200,6,{93,103,91,102,89,106,89,102,98,99,98,99,114,114,105,106,84,117,83,117,112,114,93,93}},
{"CDLHIKKAKE",2,100,6,{80,136,78,96,84,84,76,84,116,120,106,110,96,152,56,112,104,106,103,104,104,104,90,92}},
{"CDLHIKKAKE",2,100,6,{83,117,79,115,116,120,85,85,119,121,95,97,91,113,87,111,105,112,103,111,94,99,94,99}},
{"CDLHIKKAKE",2,200,6,{103,109,101,108,119,119,98,102,83,118,82,110,93,108,93,104,99,99,90,92,89,123,87,115}},
{"CDLHIKKAKE",2,200,6,{92,120,84,104,96,108,56,104,108,109,80,96,104,106,92,96,80,100,64,84,80,113,78,112}},
{"CDLHIKKAKE",3,-100,6,{93,95,92,93,116,117,99,103,114,119,112,117,111,115,80,84,103,113,101,109,111,114,110,113}},
{"CDLHIKKAKE",3,-100,6,{96,104,80,100,100,100,95,96,112,113,100,100,108,108,44,84,80,88,76,88,108,108,92,96}},
{"CDLHIKKAKE",3,-200,6,{112,114,110,112,88,89,87,88,92,96,89,91,92,95,92,93,112,114,103,111,88,89,84,89}},
{"CDLHIKKAKE",3,-200,6,{115,117,115,117,87,98,83,94,119,119,87,87,90,110,89,109,118,118,109,110,116,116,78,86}},
{"CDLHIKKAKE",3,100,6,{119,123,90,98,82,122,82,114,103,105,90,91,109,117,91,93,97,109,96,105,94,95,93,93}},
{"CDLHIKKAKE",3,100,6,{84,104,44,88,104,105,95,96,104,104,88,104,112,116,76,84,112,114,100,108,104,105,96,96}},
{"CDLHIKKAKE",3,200,6,{104,112,104,112,80,144,79,104,104,104,95,95,84,92,64,80,100,100,91,92,112,114,111,111}},
{"CDLHIKKAKE",3,200,6,{119,119,97,105,80,109,80,105,94,95,83,83,91,91,88,88,88,88,86,86,102,112,100,111}},
{"CDLHIKKAKE",4,-100,6,{104,108,95,95,100,100,86,87,96,98,81,83,104,105,85,89,100,100,88,92,100,108,92,92}},
{"CDLHIKKAKE",4,-100,6,{88,88,84,88,112,112,90,92,104,148,102,108,84,112,84,112,92,93,86,88,104,112,102,112}},
{"CDLHIKKAKE",4,-200,6,{104,115,102,115,96,112,92,108,96,112,40,80,99,103,90,91,104,118,104,117,80,80,80,80}},
{"CDLHIKKAKE",4,-200,6,{80,80,76,80,92,108,84,92,97,105,95,95,111,115,108,108,104,116,104,116,83,98,82,94}},
{"CDLHIKKAKE",4,100,6,{81,115,81,115,112,114,112,114,87,116,87,114,109,117,97,97,110,112,105,105,96,96,83,87}},
{"CDLHIKKAKE",4,100,6,{88,99,86,98,94,106,86,98,104,106,86,88,92,148,84,108,99,105,95,105,96,96,79,80}},
{"CDLHIKKAKE",4,200,6,{100,100,68,84,96,112,72,80,112,116,84,92,104,104,92,92,80,98,79,96,108,108,107,108}},
{"CDLHIKKAKE",4,200,6,{104,105,81,89,96,119,95,111,96,110,96,110,96,96,78,86,100,101,83,85,96,120,95,112}},
{"CDLHIKKAKE",5,-100,6,{104,104,85,89,99,101,88,89,88,91,80,89,84,109,76,108,88,97,87,89,100,101,92,100}},
{"CDLHIKKAKE",5,-100,6,{92,119,92,119,118,122,89,89,101,113,99,113,89,125,81,117,89,92,89,90,109,111,109,110}},
{"CDLHIKKAKE",5,-200,6,{81,102,81,98,80,116,78,112,88,108,72,92,104,104,92,92,96,110,94,110,119,121,91,91}},
{"CDLHIKKAKE",5,-200,6,{96,99,95,97,92,112,92,112,107,108,82,82,95,96,91,93,108,112,100,108,84,88,80,84}},
{"CDLHIKKAKE",5,100,6,{107,111,83,85,118,120,73,81,80,116,79,114,110,114,81,89,111,112,108,110,90,107,88,106}},
{"CDLHIKKAKE",5,100,6,{84,128,82,88,84,108,83,100,104,108,76,84,112,152,83,84,88,112,88,96,84,110,84,108}},
{"CDLHIKKAKE",5,200,6,{100,108,92,100,92,132,68,84,80,152,80,112,100,109,99,109,93,95,84,86,118,126,112,112}},
{"CDLHIKKAKE",5,200,6,{100,108,96,108,100,101,90,91,100,100,91,92,96,97,81,82,104,108,92,93,100,114,100,113}},
{"CDLHIKKAKE",6,-100,6,{104,118,104,114,84,88,84,84,104,117,96,117,80,108,76,108,96,97,81,81,107,119,107,119}},
{"CDLHIKKAKE",6,-100,6,{118,118,84,85,87,113,85,113,101,102,81,82,88,110,80,102,85,90,85,89,97,117,97,116}},
{"CDLHIKKAKE",6,-200,6,{104,104,87,88,88,136,72,96,100,100,80,96,84,90,82,88,96,120,96,112,88,128,80,80}},
{"CDLHIKKAKE",6,-200,6,{92,103,88,95,96,100,80,80,110,118,94,96,100,106,96,106,108,110,106,107,88,88,87,88}},
{"CDLHIKKAKE",6,100,6,{104,112,76,92,80,112,64,112,80,120,40,112,100,112,99,108,104,105,104,104,96,97,72,80}},
{"CDLHIKKAKE",6,100,6,{92,97,84,93,80,81,79,81,80,89,76,81,112,116,107,111,112,115,110,113,92,92,92,92}},
{"CDLHIKKAKE",6,200,6,{108,110,100,108,88,91,84,89,96,96,88,96,92,94,90,93,88,88,87,87,104,106,103,103}},
{"CDLHIKKAKE",6,200,6,{87,89,85,87,104,113,102,105,104,113,64,112,104,105,95,103,100,100,85,85,101,122,101,118}},
{"CDLHIKKAKE",7,-100,6,{104,104,100,104,84,92,83,84,108,113,100,109,92,100,92,92,96,97,95,95,104,112,103,103}},
{"CDLHIKKAKE",7,-100,6,{108,148,91,92,104,144,79,80,80,152,79,112,112,120,82,84,96,108,96,104,104,120,104,104}},
{"CDLHIKKAKE",7,-200,6,{104,116,96,112,100,111,92,109,96,104,94,104,100,110,99,110,104,113,104,113,104,104,93,93}},
{"CDLHIKKAKE",7,-200,6,{96,97,92,96,104,105,89,91,88,108,88,108,104,106,100,105,110,112,106,110,115,119,90,91}},
{"CDLHIKKAKE",7,100,6,{107,107,95,97,117,125,83,91,105,105,91,93,89,115,81,115,104,104,90,91,86,99,78,97}},
{"CDLHIKKAKE",7,100,6,{90,97,86,96,104,112,79,81,88,115,88,114,87,110,87,106,103,109,103,109,91,100,83,100}},
{"CDLHIKKAKE",7,200,6,{100,128,100,112,88,100,48,100,84,110,82,108,108,108,108,108,92,93,87,87,92,113,90,112}},
{"CDLHIKKAKE",7,200,6,{84,104,76,100,92,93,90,92,113,117,91,95,92,100,92,96,96,97,83,85,100,109,98,109}},
{"CDLHIKKAKEMOD",0,-100,11,{80,96,64,92,92,100,80,80,112,120,48,88,96,104,56,100,108,116,96,96,88,104,88,88,96,148,95,108,80,108,80,108,100,102,92,96,96,96,96,96,112,112,100,104}},
{"CDLHIKKAKEMOD",0,-100,11,{84,96,44,92,88,96,80,92,112,120,88,88,84,101,80,100,112,112,96,104,80,100,79,100,88,104,80,80,108,110,44,84,84,109,83,108,88,100,88,100,112,114,100,104}},
{"CDLHIKKAKEMOD",0,-200,11,{87,110,87,109,119,119,93,93,91,104,87,103,104,106,89,97,92,101,92,101,93,94,90,91,119,121,76,84,93,115,91,114,108,108,98,106,110,117,106,116,85,100,83,96}},
{"CDLHIKKAKEMOD",0,-200,11,{92,97,84,93,88,88,86,87,80,80,78,79,104,112,103,103,115,115,85,86,92,113,92,111,105,110,97,109,112,112,108,112,117,121,103,111,86,101,78,99,101,105,84,84}},
{"CDLHIKKAKEMOD",0,100,11,{100,101,100,101,84,93,84,85,96,99,96,97,112,112,112,112,118,123,118,119,92,100,88,88,99,111,98,109,88,118,87,110,115,116,97,97,108,108,103,107,100,104,96,98}},
{"CDLHIKKAKEMOD",0,100,11,{112,114,104,104,104,120,84,84,88,104,48,100,108,148,88,96,81,100,73,98,103,103,103,103,108,119,100,118,115,123,81,82,111,111,87,91,106,106,88,88,87,91,86,87}},
{"CDLHIKKAKEMOD",0,200,11,{104,144,92,96,96,110,96,108,92,108,80,80,84,100,68,84,88,112,88,108,84,108,82,100,108,108,72,88,92,96,87,88,92,92,88,92,84,84,82,84,96,152,92,112}},
{"CDLHIKKAKEMOD",0,200,11,{99,107,91,105,106,114,93,93,112,113,83,85,82,107,82,107,100,109,96,109,99,122,91,114,84,114,82,112,107,111,90,92,101,103,92,94,89,99,87,98,92,107,88,106}},
{"CDLHIKKAKEMOD",1,-100,7,{108,116,84,92,108,148,94,96,108,108,84,84,96,136,52,92,80,104,76,104,96,96,80,96,104,105,96,100}},
{"CDLHIKKAKEMOD",1,-100,7,{110,114,88,90,119,119,109,111,99,101,90,94,81,107,73,105,80,102,80,94,81,94,81,90,118,118,109,117}},
{"CDLHIKKAKEMOD",1,-200,7,{80,85,40,84,88,128,72,80,92,105,91,104,96,96,96,96,108,120,108,112,80,116,76,108,80,88,79,88}},
{"CDLHIKKAKEMOD",1,-200,7,{99,107,82,83,86,120,82,118,88,117,84,116,99,115,99,115,118,118,114,115,101,126,101,118,89,98,89,97}},
{"CDLHIKKAKEMOD",1,100,7,{100,100,84,84,100,140,76,92,112,120,96,100,80,116,76,108,108,112,94,96,108,108,95,96,96,96,44,84}},
{"CDLHIKKAKEMOD",1,100,7,{105,106,93,93,95,99,95,95,103,104,79,83,85,123,77,115,117,121,82,86,107,111,83,85,80,93,79,93}},
{"CDLHIKKAKEMOD",1,200,7,{100,118,100,110,88,91,88,89,88,128,72,88,100,104,96,100,100,100,99,100,85,92,84,92,100,117,96,116}},
{"CDLHIKKAKEMOD",1,200,7,{118,126,80,80,116,118,85,85,112,117,104,115,112,114,97,97,88,109,86,109,84,88,83,84,100,122,96,118}},
{"CDLHIKKAKEMOD",2,-100,8,{108,110,103,104,100,100,60,100,92,112,91,112,100,108,92,108,112,128,48,88,108,108,64,104,88,104,72,104,108,148,80,84}},
{"CDLHIKKAKEMOD",2,-100,8,{92,106,52,104,88,104,76,80,84,93,76,92,92,108,92,92,112,116,87,88,92,110,92,108,104,105,100,104,104,108,104,104}},
{"CDLHIKKAKEMOD",2,-200,8,{108,109,105,107,100,148,84,108,88,105,87,104,112,128,64,104,108,108,88,104,96,98,90,92,112,128,92,92,108,108,80,88}},
{"CDLHIKKAKEMOD",2,-200,8,{92,92,88,92,114,114,89,97,96,104,94,104,104,119,96,119,112,117,104,113,108,109,106,109,110,117,110,115,104,108,91,92}},
{"CDLHIKKAKEMOD",2,100,8,{84,106,44,104,84,152,84,112,108,124,60,100,104,120,88,112,92,124,52,108,112,116,90,92,112,113,96,96,80,104,78,96}},
{"CDLHIKKAKEMOD",2,100,8,{99,106,97,105,108,108,106,107,108,108,106,108,100,109,99,101,104,112,96,104,100,109,98,101,104,106,100,105,80,82,75,79}},
{"CDLHIKKAKEMOD",2,200,8,{108,109,105,107,104,144,99,100,112,112,83,84,96,100,92,92,96,98,96,96,84,92,82,92,96,98,76,84,112,116,92,100}},
{"CDLHIKKAKEMOD",2,200,8,{112,113,94,96,100,100,100,100,84,85,82,83,80,110,76,108,96,104,96,100,100,100,100,100,88,88,80,84,100,112,100,108}},
{"CDLHIKKAKEMOD",3,-100,7,{112,120,109,109,105,105,100,100,89,102,89,100,119,123,89,90,92,105,92,103,103,104,102,104,117,119,113,113}},
{"CDLHIKKAKEMOD",3,-100,7,{118,118,86,86,85,100,84,92,108,108,84,84,92,127,84,119,88,120,88,119,113,115,91,99,117,125,92,100}},
{"CDLHIKKAKEMOD",3,-200,7,{105,122,97,118,110,120,110,119,116,118,112,114,114,120,113,116,110,115,109,113,87,119,87,119,111,111,92,93}},
{"CDLHIKKAKEMOD",3,-200,7,{117,121,88,88,100,120,96,116,107,110,99,109,110,120,108,119,110,125,110,117,80,108,80,104,104,104,97,97}},
{"CDLHIKKAKEMOD",3,100,7,{100,109,100,101,112,114,111,112,96,97,81,85,92,104,52,96,88,96,87,88,92,93,91,92,80,82,75,79}},
{"CDLHIKKAKEMOD",3,100,7,{108,148,68,108,88,96,84,88,80,100,79,92,108,148,40,80,112,128,106,108,108,108,108,108,104,105,86,88}},
{"CDLHIKKAKEMOD",3,200,7,{116,124,112,112,94,103,93,95,90,119,82,119,114,115,100,101,114,114,102,104,106,108,78,86,116,122,112,118}},
{"CDLHIKKAKEMOD",3,200,7,{82,106,81,102,102,103,87,87,102,102,94,94,82,99,74,95,110,118,91,95,91,107,87,99,113,121,108,112}},
{"CDLHIKKAKEMOD",4,-100,8,{104,112,95,96,118,120,92,92,114,116,95,103,115,119,90,98,118,118,81,85,90,115,82,115,97,105,85,89,105,113,102,104}},
{"CDLHIKKAKEMOD",4,-100,8,{108,109,100,108,99,119,98,119,87,116,86,112,88,92,80,91,118,120,85,86,95,114,95,112,108,108,99,103,116,117,111,111}},
{"CDLHIKKAKEMOD",4,-200,8,{108,128,107,112,84,120,80,104,91,93,82,90,88,92,86,88,96,101,88,97,108,112,106,108,96,110,96,106,96,96,75,83}},
{"CDLHIKKAKEMOD",4,-200,8,{112,112,87,88,104,105,83,83,92,94,84,84,86,91,86,89,111,118,109,118,118,120,101,101,97,97,95,97,109,117,80,80}},
{"CDLHIKKAKEMOD",4,100,8,{115,123,86,86,84,109,83,109,93,99,93,98,86,95,84,93,113,121,82,90,109,111,83,85,97,106,97,102,89,93,79,87}},
{"CDLHIKKAKEMOD",4,100,8,{96,113,95,105,92,108,92,100,88,109,86,108,100,104,100,100,80,136,79,96,112,112,84,88,100,108,99,108,100,106,92,104}},
{"CDLHIKKAKEMOD",4,200,8,{111,119,97,97,112,152,88,88,96,113,96,105,99,108,99,100,100,104,78,86,115,117,85,85,105,109,84,88,104,119,102,117}},
{"CDLHIKKAKEMOD",4,200,8,{92,92,84,88,81,120,81,116,108,128,107,112,108,148,80,80,100,104,88,88,100,100,91,99,92,92,88,92,88,124,84,108}},
{"CDLHIKKAKEMOD",5,-100,7,{104,119,104,118,105,106,98,98,109,110,100,100,81,126,80,118,93,113,93,105,97,99,94,95,102,116,102,108}},
{"CDLHIKKAKEMOD",5,-100,7,{80,118,78,118,112,120,93,94,109,109,91,91,82,120,78,116,81,109,79,109,87,95,82,83,106,119,105,119}},
{"CDLHIKKAKEMOD",5,-200,7,{100,101,84,92,100,108,86,88,96,108,88,108,96,105,92,105,104,104,94,94,104,117,100,115,96,96,79,80}},
{"CDLHIKKAKEMOD",5,-200,7,{87,95,87,95,81,106,80,106,112,112,88,88,92,104,92,102,98,100,96,100,102,123,100,119,105,106,84,86}},
{"CDLHIKKAKEMOD",5,100,7,{80,80,77,79,84,86,82,85,80,83,72,81,88,148,80,108,106,114,93,94,100,102,99,99,83,91,79,89}},
{"CDLHIKKAKEMOD",5,100,7,{88,136,80,96,92,116,52,112,80,82,79,79,80,140,80,100,106,110,89,89,91,102,91,101,96,96,88,96}},
{"CDLHIKKAKEMOD",5,200,7,{110,110,75,83,112,128,88,88,100,112,100,110,108,109,108,109,104,104,94,95,100,100,92,100,100,114,100,110}},
{"CDLHIKKAKEMOD",5,200,7,{96,109,92,108,104,108,96,96,100,140,76,92,92,112,92,108,108,109,107,108,100,102,84,84,80,114,78,112}},
{"CDLHIKKAKEMOD",6,-100,10,{104,106,96,105,100,101,92,100,100,102,96,100,92,96,84,96,80,108,72,100,96,108,88,108,80,109,64,108,80,108,79,104,96,102,92,100,112,113,103,104}},
{"CDLHIKKAKEMOD",6,-100,10,{118,118,85,85,112,116,112,115,109,125,107,117,115,116,103,104,104,124,104,116,104,123,104,119,84,104,68,100,80,89,78,88,84,84,82,83,96,96,93,95}},
{"CDLHIKKAKEMOD",6,-200,10,{100,104,84,84,108,110,80,88,108,116,80,80,96,136,87,88,112,112,88,104,104,108,99,100,104,106,103,104,112,120,104,108,104,104,104,104,92,93,44,84}},
{"CDLHIKKAKEMOD",6,-200,10,{112,114,104,104,100,102,83,84,104,110,96,108,85,105,81,97,96,109,94,108,116,124,74,82,104,106,98,100,104,104,99,103,112,113,111,111,92,96,90,96}},
{"CDLHIKKAKEMOD",6,100,10,{100,114,99,114,104,116,102,116,104,108,95,96,88,96,84,92,104,104,52,92,80,94,72,92,84,148,82,108,104,144,88,96,112,112,100,100,88,104,88,104}},
{"CDLHIKKAKEMOD",6,100,10,{104,112,88,92,104,105,76,80,108,112,60,100,100,101,88,88,80,101,72,100,92,109,91,108,88,140,72,100,96,136,92,92,96,96,96,96,84,92,79,80}},
{"CDLHIKKAKEMOD",6,200,10,{108,148,76,84,112,114,82,84,108,112,92,108,104,105,68,84,96,104,95,95,100,101,100,101,88,92,87,88,81,90,73,88,96,100,84,92,104,120,104,120}},
{"CDLHIKKAKEMOD",6,200,10,{96,115,95,107,100,100,88,92,96,96,84,86,84,114,76,114,112,113,91,92,104,104,92,96,91,91,79,80,88,88,88,88,80,88,75,79,100,108,98,108}},
{"CDLHIKKAKEMOD",7,-100,8,{112,114,107,108,100,105,100,104,100,101,86,88,88,90,82,86,113,113,77,81,95,109,95,109,104,108,103,103,113,114,109,110}},
{"CDLHIKKAKEMOD",7,-100,8,{92,124,84,108,112,120,112,112,92,140,76,100,84,116,68,108,104,104,80,80,84,102,82,100,84,97,83,96,104,104,84,84}},
{"CDLHIKKAKEMOD",7,-200,8,{112,116,100,104,112,128,52,92,88,112,86,108,104,106,92,92,108,112,104,104,92,104,84,104,84,136,83,96,80,96,76,80}},
{"CDLHIKKAKEMOD",7,-200,8,{95,95,79,81,114,115,83,87,81,121,80,117,82,119,82,119,93,97,89,89,112,116,95,95,91,117,83,109,86,86,80,80}},
{"CDLHIKKAKEMOD",7,100,8,{84,108,82,92,84,88,80,80,100,108,64,80,88,88,48,88,100,140,76,92,112,112,82,84,104,108,88,92,84,88,83,88}},
{"CDLHIKKAKEMOD",7,100,8,{84,84,82,84,80,88,79,80,100,100,99,99,104,112,99,103,108,116,100,108,104,109,104,105,108,108,106,107,104,106,103,104}},
{"CDLHIKKAKEMOD",7,200,8,{83,97,83,95,105,108,97,106,106,106,95,103,114,122,82,83,108,112,83,83,102,103,94,94,82,102,74,94,110,119,106,118}},
{"CDLHIKKAKEMOD",7,200,8,{92,108,84,88,100,109,96,101,100,101,98,99,100,100,100,100,92,96,83,91,88,96,79,87,88,88,87,87,104,104,103,103}},
{"CDLHOMINGPIGEON",0,100,12,{90,98,83,85,96,127,94,119,100,100,86,88,102,111,102,109,110,114,88,88,109,109,100,100,82,99,82,99,101,120,100,116,89,110,87,108,99,107,95,95,104,112,72,80,88,96,84,84}},
{"CDLHOMINGPIGEON",0,100,12,{92,101,92,93,92,92,84,92,112,116,110,112,92,97,91,93,108,111,106,109,88,90,84,88,80,80,78,80,88,90,87,87,100,104,95,99,84,93,76,85,119,119,83,85,114,115,109,113}},
{"CDLHOMINGPIGEON",1,100,3,{115,119,96,97,112,112,90,91,104,108,101,102}},
{"CDLHOMINGPIGEON",1,100,3,{84,100,83,96,108,116,86,88,104,120,95,96}},
{"CDLHOMINGPIGEON",2,100,4,{104,119,104,119,104,116,100,116,101,103,80,80,99,101,81,81}},
{"CDLHOMINGPIGEON",2,100,4,{104,119,104,119,104,116,100,116,112,128,84,84,100,104,48,88}},
{"CDLHOMINGPIGEON",3,100,2,{104,104,84,84,96,104,48,88}},
{"CDLHOMINGPIGEON",3,100,2,{119,127,95,97,105,113,102,104}},
{"CDLHOMINGPIGEON",4,100,5,{88,128,40,80,104,108,88,92,104,106,88,88,117,118,93,93,95,97,90,94}},
{"CDLHOMINGPIGEON",4,100,5,{96,97,79,83,100,104,92,92,100,100,86,88,112,152,78,80,100,102,48,88}},
{"CDLHOMINGPIGEON",5,100,5,{112,113,106,108,84,144,84,104,108,108,88,88,113,113,82,84,104,112,84,92}},
{"CDLHOMINGPIGEON",5,100,5,{84,84,44,84,92,112,91,108,88,92,80,92,112,116,90,92,109,109,99,101}},
{"CDLHOMINGPIGEON",6,100,6,{106,109,106,108,98,106,90,106,97,110,93,110,91,93,83,92,100,102,84,85,96,96,80,88}},
{"CDLHOMINGPIGEON",6,100,6,{106,109,106,108,98,106,90,106,97,110,93,110,91,93,83,92,112,112,76,84,96,97,82,86}},
{"CDLHOMINGPIGEON",7,100,4,{112,128,88,96,96,101,94,100,100,100,88,88,96,112,92,92}},
{"CDLHOMINGPIGEON",7,100,4,{80,140,80,100,112,112,107,108,117,125,84,92,108,108,104,105}},
{"CDLIDENTICAL3CROWS",0,-100,13,{92,108,76,100,88,109,86,108,80,112,64,112,88,112,72,96,92,93,87,88,80,100,80,100,100,102,92,92,92,132,84,92,112,120,100,100,84,102,76,100,112,152,96,96,96,104,84,84,84,86,80,80}},
{"CDLIDENTICAL3CROWS",0,-100,13,{96,97,87,91,109,111,97,105,106,108,84,84,97,102,96,98,114,122,87,87,111,113,85,89,115,119,81,82,118,119,100,100,88,90,86,86,108,110,73,81,112,152,96,96,96,136,91,92,92,108,88,88}},
{"CDLIDENTICAL3CROWS",1,-100,4,{100,112,100,112,100,108,96,96,96,100,92,92,92,96,88,88}},
{"CDLIDENTICAL3CROWS",1,-100,4,{87,111,87,107,112,112,94,96,96,136,88,88,88,88,83,84}},
{"CDLIDENTICAL3CROWS",2,-100,4,{104,120,64,112,110,110,99,107,109,110,92,94,93,93,87,89}},
{"CDLIDENTICAL3CROWS",2,-100,4,{96,104,56,104,118,118,105,113,118,119,96,98,98,98,85,87}},
{"CDLIDENTICAL3CROWS",3,-100,3,{104,108,100,100,101,103,84,86,85,85,84,84}},
{"CDLIDENTICAL3CROWS",3,-100,3,{107,115,91,93,96,112,80,80,80,88,78,79}},
{"CDLIDENTICAL3CROWS",4,-100,6,{108,124,52,92,112,128,112,112,96,96,78,80,104,106,102,103,104,104,96,96,96,104,95,95}},
{"CDLIDENTICAL3CROWS",4,-100,6,{115,123,87,88,103,107,79,83,118,118,73,81,116,120,113,113,111,111,107,107,103,104,99,99}},
{"CDLIDENTICAL3CROWS",5,-100,6,{100,117,92,109,96,100,81,82,96,97,80,80,118,118,110,111,112,113,79,80,80,80,79,79}},
{"CDLIDENTICAL3CROWS",5,-100,6,{92,140,76,100,104,108,84,84,112,112,64,104,116,124,110,110,112,113,108,108,109,109,97,97}},
{"CDLIDENTICAL3CROWS",6,-100,7,{80,124,80,108,88,136,72,96,104,152,102,112,108,108,60,100,100,101,98,99,96,104,95,95,92,92,87,91}},
{"CDLIDENTICAL3CROWS",6,-100,7,{88,89,68,84,112,112,90,92,80,101,72,100,88,104,86,100,110,118,104,104,104,105,100,102,104,104,89,93}},
{"CDLIDENTICAL3CROWS",7,-100,5,{80,96,76,96,100,102,60,100,112,113,107,108,108,116,99,100,100,108,92,92}},
{"CDLIDENTICAL3CROWS",7,-100,5,{96,114,88,106,96,109,95,107,112,113,108,108,108,112,96,96,96,112,88,88}},
{"CDLINNECK",0,-100,12,{100,101,100,101,92,96,84,92,92,93,90,91,112,113,111,113,92,100,84,92,88,92,85,87,108,111,108,109,92,95,88,93,100,103,99,101,88,88,83,87,112,112,103,104,96,108,56,104}},
{"CDLINNECK",0,-100,12,{80,104,40,104,96,104,94,104,104,112,103,112,92,120,91,104,80,148,72,108,104,104,84,84,112,112,52,92,88,92,88,88,84,92,80,88,96,112,96,108,112,120,92,92,88,100,72,92}},
{"CDLINNECK",1,-100,3,{112,116,112,112,110,111,108,108,83,109,79,108}},
{"CDLINNECK",1,-100,3,{84,128,76,88,104,104,93,93,84,96,84,96}},
{"CDLINNECK",2,-100,4,{104,105,86,94,96,106,95,104,113,115,95,95,88,97,86,96}},
{"CDLINNECK",2,-100,4,{96,98,96,97,112,121,104,113,104,104,88,92,84,132,80,92}},
{"CDLINNECK",3,-100,2,{108,108,95,96,92,136,84,96}},
{"CDLINNECK",3,-100,2,{110,114,105,105,88,106,88,106}},
{"CDLINNECK",4,-100,5,{100,102,96,100,88,90,87,89,100,100,91,99,119,123,87,88,81,88,80,88}},
{"CDLINNECK",4,-100,5,{112,117,111,113,108,108,107,107,108,111,104,109,116,124,110,111,96,119,92,111}},
{"CDLINNECK",5,-100,5,{112,112,103,111,112,114,107,111,108,117,104,109,108,108,92,92,88,92,84,92}},
{"CDLINNECK",5,-100,5,{112,114,92,108,96,100,96,100,84,140,76,100,110,110,92,92,81,96,81,92}},
{"CDLINNECK",6,-100,6,{100,101,100,100,108,113,106,109,80,89,80,81,92,93,88,92,112,116,95,96,80,104,40,96}},
{"CDLINNECK",6,-100,6,{100,104,90,92,80,80,80,80,112,152,92,92,92,112,92,112,105,107,81,82,80,86,76,84}},
{"CDLINNECK",7,-100,4,{107,107,103,105,119,121,111,119,112,112,88,88,84,128,76,88}},
{"CDLINNECK",7,-100,4,{108,112,99,100,112,112,100,100,108,108,92,96,88,136,88,96}},
{"CDLINVERTEDHAMMER",0,100,12,{80,112,80,112,108,108,104,104,108,114,92,112,84,85,80,80,112,113,88,96,104,112,104,108,104,109,88,108,112,116,104,108,84,136,84,96,88,97,48,96,100,108,99,100,84,92,81,83}},
{"CDLINVERTEDHAMMER",0,100,12,{80,112,80,112,108,108,104,104,108,114,92,112,84,85,80,80,112,113,88,96,104,112,104,108,104,109,88,108,112,116,104,108,84,136,84,96,88,97,48,96,84,132,68,92,80,96,79,80}},
{"CDLINVERTEDHAMMER",1,100,3,{104,104,93,95,108,109,84,100,96,104,94,96}},
{"CDLINVERTEDHAMMER",1,100,3,{104,104,93,95,88,96,72,92,80,120,80,80}},
{"CDLINVERTEDHAMMER",2,100,3,{104,120,90,92,112,114,107,111,104,112,104,104}},
{"CDLINVERTEDHAMMER",2,100,3,{88,116,72,112,112,128,92,100,92,136,91,96}},
{"CDLINVERTEDHAMMER",3,100,2,{104,106,103,105,92,95,92,93}},
{"CDLINVERTEDHAMMER",3,100,2,{104,108,103,103,96,98,95,95}},
{"CDLINVERTEDHAMMER",4,100,5,{92,92,84,84,92,112,91,104,88,114,88,112,108,108,100,108,96,104,95,95}},
{"CDLINVERTEDHAMMER",4,100,5,{92,92,84,84,92,112,91,104,88,114,88,112,108,110,108,108,84,89,84,85}},
{"CDLINVERTEDHAMMER",5,100,4,{104,118,102,116,100,100,86,88,108,113,108,109,84,92,82,83}},
{"CDLINVERTEDHAMMER",5,100,4,{80,120,79,112,108,108,88,96,104,105,102,104,80,82,79,79}},
{"CDLINVERTEDHAMMER",6,100,6,{84,84,64,80,100,101,90,92,80,106,80,104,100,102,98,100,100,109,100,101,96,105,96,97}},
{"CDLINVERTEDHAMMER",6,100,6,{92,112,91,112,108,108,87,88,96,96,76,80,88,100,88,92,104,124,96,108,88,104,86,88}},
{"CDLINVERTEDHAMMER",7,100,4,{108,114,108,112,80,108,80,100,104,114,104,114,96,104,82,82}},
{"CDLINVERTEDHAMMER",7,100,4,{92,93,91,91,84,88,81,83,112,116,112,112,108,116,108,108}},
{"CDLKICKING",0,-100,12,{104,106,80,80,84,86,82,84,80,120,79,80,100,112,100,112,100,120,100,104,108,116,96,96,92,101,84,100,80,109,76,108,112,152,72,112,112,113,96,112,100,109,98,109,96,96,84,85}},
{"CDLKICKING",0,-100,12,{108,148,100,104,100,104,94,96,100,113,100,112,92,116,88,108,112,112,104,104,96,98,88,96,88,96,64,80,100,116,76,80,108,148,90,92,92,104,92,96,100,110,100,110,96,98,83,85}},
{"CDLKICKING",0,100,12,{80,124,40,108,100,108,90,92,84,85,68,84,112,112,112,112,84,124,76,80,112,128,96,96,96,96,80,96,96,112,84,84,80,108,78,104,108,108,76,80,96,96,82,83,104,117,104,116}},
{"CDLKICKING",0,100,12,{84,89,68,88,100,101,96,96,108,148,91,92,112,120,68,108,104,104,80,80,108,112,100,112,80,88,40,80,112,152,112,112,92,101,91,100,80,82,72,80,100,101,86,87,104,119,104,118}},
{"CDLKICKING",1,-100,3,{96,104,92,104,104,114,104,114,96,97,80,81}},
{"CDLKICKING",1,-100,3,{96,112,84,92,104,116,104,114,96,96,80,80}},
{"CDLKICKING",1,100,3,{100,120,92,104,92,93,78,80,100,116,99,116}},
{"CDLKICKING",1,100,3,{103,105,95,95,96,97,87,87,104,121,104,120}},
{"CDLKICKING",2,-100,4,{108,110,100,100,92,108,92,92,100,117,99,116,96,96,82,82}},
{"CDLKICKING",2,-100,4,{96,98,84,84,108,152,108,112,104,115,104,113,100,101,88,90}},
{"CDLKICKING",2,100,4,{92,108,76,108,92,132,84,84,96,97,73,81,100,113,99,113}},
{"CDLKICKING",2,100,4,{92,96,80,80,104,104,56,96,100,100,82,84,104,119,102,119}},
{"CDLKICKING",3,-100,2,{100,108,100,108,96,96,84,84}},
{"CDLKICKING",3,-100,2,{104,117,103,116,96,96,82,83}},
{"CDLKICKING",3,100,2,{96,96,83,84,104,115,104,114}},
{"CDLKICKING",3,100,2,{96,97,82,83,100,111,100,111}},
{"CDLKICKING",4,-100,4,{107,107,78,80,101,109,96,98,104,120,104,120,100,100,86,86}},
{"CDLKICKING",4,-100,4,{96,104,72,88,92,108,84,104,99,119,99,119,96,96,85,85}},
{"CDLKICKING",4,100,4,{104,106,86,90,104,104,94,95,96,96,80,80,104,118,104,118}},
{"CDLKICKING",4,100,4,{96,96,82,84,92,120,76,112,100,100,89,90,104,116,104,116}},
{"CDLKICKING",5,-100,5,{96,112,56,112,100,104,88,88,104,112,92,100,100,112,100,112,96,97,86,86}},
{"CDLKICKING",5,-100,5,{96,112,80,80,104,144,96,104,108,109,60,100,104,116,100,116,96,97,86,86}},
{"CDLKICKING",5,100,5,{84,108,68,100,104,112,96,108,80,93,40,92,96,97,82,84,100,114,100,114}},
{"CDLKICKING",5,100,5,{96,112,80,80,104,144,96,104,108,109,60,100,96,100,77,81,104,119,104,119}},
{"CDLKICKING",6,-100,6,{80,80,80,80,84,132,84,92,104,112,84,84,104,104,96,100,111,119,110,117,104,105,89,89}},
{"CDLKICKING",6,-100,6,{88,90,84,88,84,87,82,85,96,104,96,96,88,89,88,89,100,111,100,111,96,97,83,83}},
{"CDLKICKING",6,100,6,{80,104,72,88,112,113,92,100,88,106,84,104,104,104,88,104,96,98,83,85,104,120,104,120}},
{"CDLKICKING",6,100,6,{80,80,80,80,84,132,84,92,104,112,84,84,104,104,96,100,96,98,84,85,104,121,103,119}},
{"CDLKICKING",7,-100,4,{112,112,94,96,112,112,96,100,104,118,102,116,100,100,89,89}},
{"CDLKICKING",7,-100,4,{84,92,84,92,80,96,64,96,104,119,103,118,100,100,83,84}},
{"CDLKICKING",7,100,4,{103,121,101,117,96,122,96,114,100,102,85,87,104,120,103,119}},
{"CDLKICKING",7,100,4,{104,110,88,108,80,109,80,108,100,100,85,85,104,122,104,120}},
{"CDLKICKINGBYLENGTH",0,-100,12,{80,88,72,80,112,112,90,92,92,104,92,104,100,100,96,96,100,100,84,84,112,112,91,92,84,100,84,96,96,96,80,96,104,116,102,112,104,106,88,96,96,96,80,80,100,115,99,115}},
{"CDLKICKINGBYLENGTH",0,-100,12,{96,98,84,88,96,101,56,100,104,114,102,112,88,128,86,112,80,120,72,104,84,104,68,104,88,128,44,84,104,120,88,88,100,140,60,100,80,80,64,80,96,96,80,81,100,115,100,114}},
{"CDLKICKINGBYLENGTH",0,100,12,{100,104,97,99,104,105,100,105,80,81,79,79,88,88,87,88,88,90,84,88,108,108,108,108,92,101,90,93,112,117,111,113,84,84,84,84,80,85,76,81,84,84,83,83,88,96,88,96}},
{"CDLKICKINGBYLENGTH",0,100,12,{92,116,91,112,92,93,76,80,88,90,48,88,80,120,40,80,108,124,80,84,100,110,100,108,80,101,79,100,96,108,96,108,100,101,98,100,104,112,78,80,100,114,100,113,96,96,81,83}},
{"CDLKICKINGBYLENGTH",1,-100,3,{100,108,97,99,100,109,100,109,96,96,80,80}},
{"CDLKICKINGBYLENGTH",1,-100,3,{100,108,97,99,104,117,104,117,100,100,83,84}},
{"CDLKICKINGBYLENGTH",1,100,3,{100,116,100,108,97,97,85,86,100,116,100,116}},
{"CDLKICKINGBYLENGTH",1,100,3,{112,112,103,104,96,96,86,86,100,116,100,115}},
{"CDLKICKINGBYLENGTH",2,-100,4,{92,97,92,93,88,96,83,87,96,96,84,84,104,115,104,113}},
{"CDLKICKINGBYLENGTH",2,-100,4,{96,96,95,95,92,95,88,93,96,97,79,80,104,117,103,117}},
{"CDLKICKINGBYLENGTH",2,100,4,{100,100,90,92,104,106,84,92,104,121,103,119,96,97,77,81}},
{"CDLKICKINGBYLENGTH",2,100,4,{96,104,64,80,92,108,76,92,100,111,100,109,96,97,87,87}},
{"CDLKICKINGBYLENGTH",3,-100,2,{101,101,88,89,110,113,110,113}},
{"CDLKICKINGBYLENGTH",3,-100,2,{104,114,103,113,96,96,80,81}},
{"CDLKICKINGBYLENGTH",3,100,2,{104,119,102,119,96,98,81,83}},
{"CDLKICKINGBYLENGTH",3,100,2,{104,120,104,120,100,100,89,90}},
{"CDLKICKINGBYLENGTH",4,-100,4,{104,108,103,108,96,104,80,96,100,100,85,86,104,118,104,117}},
{"CDLKICKINGBYLENGTH",4,-100,4,{104,112,100,100,100,108,80,88,104,115,103,114,96,96,82,82}},
{"CDLKICKINGBYLENGTH",4,100,4,{80,88,72,80,112,116,103,111,103,114,103,113,92,92,82,82}},
{"CDLKICKINGBYLENGTH",4,100,4,{96,110,92,110,104,115,96,115,100,100,87,87,104,119,104,119}},
{"CDLKICKINGBYLENGTH",5,-100,5,{96,148,95,108,112,120,112,112,100,112,60,112,96,98,79,80,104,117,102,116}},
{"CDLKICKINGBYLENGTH",5,-100,5,{96,96,56,96,108,108,52,92,104,106,87,88,100,114,100,112,96,98,80,81}},
{"CDLKICKINGBYLENGTH",5,100,5,{96,96,68,84,104,104,60,100,112,120,103,104,104,120,104,120,100,101,86,88}},
{"CDLKICKINGBYLENGTH",5,100,5,{96,96,68,84,104,104,60,100,112,120,103,104,96,96,86,86,100,114,100,114}},
{"CDLKICKINGBYLENGTH",6,-100,6,{84,85,80,84,104,144,92,92,84,94,68,92,84,124,44,84,100,112,98,108,92,92,80,80}},
{"CDLKICKINGBYLENGTH",6,-100,6,{88,108,87,108,88,108,72,100,104,144,91,92,100,108,60,104,104,112,103,112,96,96,83,83}},
{"CDLKICKINGBYLENGTH",6,100,6,{84,116,44,108,104,144,64,104,96,104,82,84,108,108,104,108,88,92,87,87,104,115,100,113}},
{"CDLKICKINGBYLENGTH",6,100,6,{88,108,87,108,88,108,72,100,104,144,91,92,100,108,60,104,96,96,84,88,104,115,100,115}},
{"CDLKICKINGBYLENGTH",7,-100,4,{88,116,88,100,88,104,86,100,96,96,79,80,104,115,104,113}},
{"CDLKICKINGBYLENGTH",7,-100,4,{92,94,86,88,100,112,84,112,100,114,100,112,96,96,80,81}},
{"CDLKICKINGBYLENGTH",7,100,4,{104,113,96,113,100,104,86,87,104,117,104,115,100,100,89,89}},
{"CDLKICKINGBYLENGTH",7,100,4,{96,96,95,95,100,108,97,99,100,100,96,96,104,112,104,112}},
{"CDLLADDERBOTTOM",0,100,15,{104,108,88,96,96,112,95,112,100,116,100,114,100,116,100,108,104,122,100,120,96,105,95,105,104,108,90,92,96,96,88,88,96,113,96,112,100,109,98,109,104,105,89,91,100,100,84,88,96,100,80,80,96,100,78,82,100,117,98,116}},
{"CDLLADDERBOTTOM",0,100,15,{96,106,96,105,96,96,84,86,100,124,100,116,104,117,104,113,104,117,96,115,100,100,82,90,96,105,88,104,104,116,102,112,96,96,80,84,104,112,89,93,115,115,100,102,92,93,91,91,88,96,83,87,90,92,82,84,93,114,93,112}},
{"CDLLADDERBOTTOM",1,100,6,{108,110,88,88,112,113,88,96,101,103,87,88,100,108,84,85,88,92,85,87,103,106,103,106}},
{"CDLLADDERBOTTOM",1,100,6,{93,118,91,116,118,119,102,106,95,103,90,91,87,88,83,83,83,87,79,80,94,106,94,105}},
{"CDLLADDERBOTTOM",2,100,6,{100,100,64,80,92,93,91,91,88,90,79,87,80,84,77,79,96,98,94,95,104,109,102,105}},
{"CDLLADDERBOTTOM",2,100,6,{88,148,72,108,111,111,101,105,105,105,98,100,84,84,81,82,104,105,75,83,106,120,98,118}},
{"CDLLADDERBOTTOM",3,100,5,{104,104,96,96,100,108,92,92,96,104,84,84,100,108,88,89,104,122,100,118}},
{"CDLLADDERBOTTOM",3,100,5,{112,128,104,108,100,100,89,91,96,96,73,81,95,96,93,94,100,112,100,108}},
{"CDLLADDERBOTTOM",4,100,7,{112,113,99,100,96,112,86,88,104,112,94,95,100,101,88,88,96,104,82,86,96,98,78,82,104,118,102,114}},
{"CDLLADDERBOTTOM",4,100,7,{80,120,80,80,80,120,79,80,112,128,88,104,108,116,96,96,92,94,72,80,92,100,64,80,96,106,96,104}},
{"CDLLADDERBOTTOM",5,100,7,{100,112,92,112,88,110,80,108,104,104,96,96,100,100,76,84,96,96,74,82,96,100,84,84,104,112,104,112}},
{"CDLLADDERBOTTOM",5,100,7,{80,111,80,111,107,107,88,92,104,106,96,96,100,101,78,86,96,98,80,80,96,104,72,80,100,115,96,115}},
{"CDLLADDERBOTTOM",6,100,9,{104,119,104,119,100,101,84,88,96,96,85,87,104,122,104,120,112,120,101,101,97,97,94,94,86,86,82,83,101,105,90,90,111,114,111,114}},
{"CDLLADDERBOTTOM",6,100,9,{96,128,94,112,104,108,88,108,108,116,84,92,104,110,100,108,112,120,94,96,96,98,88,88,88,89,82,84,92,96,72,88,100,148,60,108}},
{"CDLLADDERBOTTOM",7,100,7,{104,108,87,91,104,108,95,95,117,121,103,111,96,98,91,95,88,96,72,80,92,108,84,84,96,109,88,109}},
{"CDLLADDERBOTTOM",7,100,7,{105,113,79,80,93,114,93,114,116,116,112,113,100,104,80,96,84,84,72,80,88,96,76,84,104,128,104,120}},
{"CDLLONGLEGGEDDOJI",0,100,11,{88,88,87,87,112,116,111,112,80,83,72,81,112,113,111,113,88,90,86,87,100,108,91,99,104,113,103,105,92,94,90,93,100,100,97,99,108,112,103,107,100,100,99,100}},
{"CDLLONGLEGGEDDOJI",0,100,11,{88,88,87,87,112,116,111,112,80,83,72,81,112,113,111,113,88,90,86,87,100,108,91,99,104,113,103,105,92,94,90,93,100,100,97,99,108,112,103,107,100,104,92,100}},
{"CDLLONGLEGGEDDOJI",1,100,2,{104,106,92,100,104,112,100,104}},
{"CDLLONGLEGGEDDOJI",1,100,2,{104,106,92,100,108,109,106,108}},
{"CDLLONGLEGGEDDOJI",2,100,3,{96,100,86,88,88,88,88,88,104,107,104,105}},
{"CDLLONGLEGGEDDOJI",2,100,3,{96,100,86,88,88,88,88,88,88,90,87,88}},
{"CDLLONGLEGGEDDOJI",3,100,1,{100,109,100,101}},
{"CDLLONGLEGGEDDOJI",3,100,1,{96,104,93,95}},
{"CDLLONGLEGGEDDOJI",4,100,3,{100,108,100,108,92,108,92,108,84,92,81,83}},
{"CDLLONGLEGGEDDOJI",4,100,3,{100,108,100,108,92,108,92,108,92,93,84,93}},
{"CDLLONGLEGGEDDOJI",5,100,2,{84,100,44,84,100,112,98,104}},
{"CDLLONGLEGGEDDOJI",5,100,2,{84,100,44,84,103,107,100,101}},
{"CDLLONGLEGGEDDOJI",6,100,5,{80,86,80,84,108,148,68,84,112,152,88,88,104,104,96,96,100,117,100,109}},
{"CDLLONGLEGGEDDOJI",6,100,5,{80,86,80,84,108,148,68,84,112,152,88,88,104,104,96,96,96,104,84,88}},
{"CDLLONGLEGGEDDOJI",7,100,3,{104,123,104,119,96,96,86,87,80,88,80,80}},
{"CDLLONGLEGGEDDOJI",7,100,3,{104,123,104,119,96,96,86,87,92,100,90,92}},
{"CDLLONGLINE",0,-100,11,{80,116,80,112,96,112,88,104,108,112,94,96,84,128,84,112,88,94,87,92,100,148,98,108,92,132,84,84,88,116,48,108,92,92,83,84,100,120,96,104,119,120,93,93}},
{"CDLLONGLINE",0,-100,11,{90,110,88,110,113,117,111,113,91,117,91,113,96,115,92,115,102,115,100,114,102,109,102,107,110,112,76,84,86,116,85,116,103,116,95,108,82,116,80,116,105,105,82,82}},
{"CDLLONGLINE",0,100,11,{80,116,80,112,96,112,88,104,108,112,94,96,84,128,84,112,88,94,87,92,100,148,98,108,92,132,84,84,88,116,48,108,92,92,83,84,100,120,96,104,100,116,100,114}},
{"CDLLONGLINE",0,100,11,{80,116,80,112,96,112,88,104,108,112,94,96,84,128,84,112,88,94,87,92,100,148,98,108,92,132,84,84,88,116,48,108,92,92,83,84,100,120,96,104,96,114,94,110}},
{"CDLLONGLINE",1,-100,2,{108,108,76,92,112,113,83,84}},
{"CDLLONGLINE",1,-100,2,{108,108,76,92,115,115,79,81}},
{"CDLLONGLINE",1,100,2,{108,108,76,92,89,117,87,117}},
{"CDLLONGLINE",1,100,2,{108,108,76,92,94,118,94,116}},
{"CDLLONGLINE",2,-100,3,{104,108,94,96,100,100,91,92,100,100,87,87}},
{"CDLLONGLINE",2,-100,3,{88,112,48,96,112,114,88,88,113,117,85,85}},
{"CDLLONGLINE",2,100,3,{104,108,94,96,100,100,91,92,104,117,104,117}},
{"CDLLONGLINE",2,100,3,{116,116,90,92,106,110,79,80,83,112,83,112}},
{"CDLLONGLINE",3,-100,1,{100,101,89,90}},
{"CDLLONGLINE",3,-100,1,{104,106,91,91}},
{"CDLLONGLINE",3,100,1,{100,113,99,113}},
{"CDLLONGLINE",3,100,1,{96,113,92,109}},
{"CDLLONGLINE",4,-100,4,{96,96,86,88,104,117,102,115,100,117,96,116,96,96,82,86}},
{"CDLLONGLINE",4,-100,4,{96,96,86,88,104,117,102,115,100,117,96,116,96,97,84,88}},
{"CDLLONGLINE",4,100,4,{96,96,86,88,104,117,102,115,100,117,96,116,94,110,90,106}},
{"CDLLONGLINE",4,100,4,{96,96,86,88,104,117,102,115,100,117,96,116,96,106,96,106}},
{"CDLLONGLINE",5,-100,4,{106,106,104,106,96,105,95,104,107,115,80,84,108,108,92,92}},
{"CDLLONGLINE",5,-100,4,{106,106,104,106,96,105,95,104,107,115,80,84,96,96,84,84}},
{"CDLLONGLINE",5,100,4,{106,106,104,106,96,105,95,104,107,115,80,84,104,115,103,115}},
{"CDLLONGLINE",5,100,4,{108,116,104,108,112,128,104,104,100,100,82,84,100,115,96,113}},
{"CDLLONGLINE",6,-100,2,{112,116,104,104,104,104,95,95}},
{"CDLLONGLINE",6,-100,2,{112,116,104,104,116,116,93,94}},
{"CDLLONGLINE",6,100,2,{112,116,104,104,105,117,105,117}},
{"CDLLONGLINE",6,100,2,{112,116,104,104,87,99,87,99}},
{"CDLLONGLINE",7,-100,3,{104,152,104,112,108,110,84,88,108,124,84,88}},
{"CDLLONGLINE",7,-100,3,{104,152,104,112,108,110,84,88,115,123,84,85}},
{"CDLLONGLINE",7,100,3,{104,152,104,112,108,110,84,88,84,116,76,108}},
{"CDLLONGLINE",7,100,3,{104,152,104,112,108,110,84,88,96,123,94,115}},
{"CDLMARUBOZU",0,-100,11,{108,109,68,84,80,106,40,104,88,88,78,80,104,114,96,112,104,112,94,96,88,104,83,84,84,100,83,84,88,132,72,92,84,94,44,92,100,102,76,80,104,105,90,90}},
{"CDLMARUBOZU",0,-100,11,{108,109,68,84,80,106,40,104,88,88,78,80,104,114,96,112,104,112,94,96,88,104,83,84,84,100,83,84,88,132,72,92,84,94,44,92,100,102,76,80,117,117,90,90}},
{"CDLMARUBOZU",0,100,11,{108,109,68,84,80,106,40,104,88,88,78,80,104,114,96,112,104,112,94,96,88,104,83,84,84,100,83,84,88,132,72,92,84,94,44,92,100,102,76,80,104,119,102,119}},
{"CDLMARUBOZU",0,100,11,{108,109,68,84,80,106,40,104,88,88,78,80,104,114,96,112,104,112,94,96,88,104,83,84,84,100,83,84,88,132,72,92,84,94,44,92,100,102,76,80,96,113,96,111}},
{"CDLMARUBOZU",1,-100,2,{112,152,80,96,108,109,76,84}},
{"CDLMARUBOZU",1,-100,2,{92,96,91,92,104,104,94,94}},
{"CDLMARUBOZU",1,100,2,{92,96,91,92,100,109,100,109}},
{"CDLMARUBOZU",1,100,2,{92,96,91,92,91,117,91,117}},
{"CDLMARUBOZU",2,-100,3,{108,116,100,100,80,114,80,112,109,109,86,87}},
{"CDLMARUBOZU",2,-100,3,{108,116,100,100,80,114,80,112,111,112,88,88}},
{"CDLMARUBOZU",2,100,3,{108,116,100,100,80,114,80,112,80,111,79,110}},
{"CDLMARUBOZU",2,100,3,{108,116,100,100,80,114,80,112,81,119,81,119}},
{"CDLMARUBOZU",3,-100,1,{100,100,84,84}},
{"CDLMARUBOZU",3,-100,1,{104,105,88,88}},
{"CDLMARUBOZU",3,100,1,{96,104,96,104}},
{"CDLMARUBOZU",3,100,1,{96,107,95,106}},
{"CDLMARUBOZU",4,-100,3,{80,127,72,119,95,98,94,96,108,109,96,96}},
{"CDLMARUBOZU",4,-100,3,{80,127,72,119,95,98,94,96,96,97,87,87}},
{"CDLMARUBOZU",4,100,3,{80,127,72,119,95,98,94,96,85,108,84,107}},
{"CDLMARUBOZU",4,100,3,{80,127,72,119,95,98,94,96,91,99,91,99}},
{"CDLMARUBOZU",5,-100,4,{93,114,93,106,119,120,110,110,111,122,103,114,100,101,91,91}},
{"CDLMARUBOZU",5,-100,4,{93,114,93,106,119,120,110,110,111,122,103,114,112,113,82,83}},
{"CDLMARUBOZU",5,100,4,{93,114,93,106,119,120,110,110,111,122,103,114,104,119,103,119}},
{"CDLMARUBOZU",5,100,4,{93,114,93,106,119,120,110,110,111,122,103,114,95,105,95,105}},
{"CDLMARUBOZU",6,-100,5,{108,124,98,100,80,88,76,88,80,104,72,104,88,108,84,108,104,106,80,81}},
{"CDLMARUBOZU",6,-100,5,{108,124,98,100,80,88,76,88,80,104,72,104,88,108,84,108,111,111,80,81}},
{"CDLMARUBOZU",6,100,5,{84,92,83,84,92,132,82,84,96,101,88,100,96,104,96,96,108,109,108,109}},
{"CDLMARUBOZU",6,100,5,{84,92,83,84,92,132,82,84,96,101,88,100,96,104,96,96,96,110,96,110}},
{"CDLMARUBOZU",7,-100,3,{100,101,100,100,108,112,107,112,100,100,80,80}},
{"CDLMARUBOZU",7,-100,3,{100,101,100,100,108,112,107,112,119,119,90,90}},
{"CDLMARUBOZU",7,100,3,{100,100,92,100,104,104,80,88,88,112,88,111}},
{"CDLMARUBOZU",7,100,3,{100,101,100,100,108,112,107,112,104,112,104,112}},
{"CDLMATCHINGLOW",0,100,7,{96,106,95,104,112,152,100,108,104,116,102,112,96,124,96,108,108,124,104,104,100,102,84,86,96,96,81,85}},
{"CDLMATCHINGLOW",0,100,7,{96,106,95,104,112,152,100,108,104,116,102,112,96,124,96,108,108,124,104,104,96,100,80,80,96,96,72,80}},
{"CDLMATCHINGLOW",1,100,3,{80,112,40,108,96,96,77,81,96,96,81,85}},
{"CDLMATCHINGLOW",1,100,3,{96,111,96,107,96,96,84,84,92,93,76,84}},
{"CDLMATCHINGLOW",2,100,3,{92,100,48,88,112,112,80,80,104,108,76,80}},
{"CDLMATCHINGLOW",2,100,3,{96,98,92,97,100,100,80,80,108,108,40,80}},
{"CDLMATCHINGLOW",3,100,2,{108,124,64,104,108,124,98,100}},
{"CDLMATCHINGLOW",3,100,2,{95,95,91,93,116,118,93,93}},
{"CDLMATCHINGLOW",4,100,5,{100,104,56,96,100,100,56,96,88,112,86,112,100,101,89,89,89,97,83,87}},
{"CDLMATCHINGLOW",4,100,5,{100,104,56,96,100,100,56,96,88,112,86,112,96,98,80,84,96,104,82,82}},
{"CDLMATCHINGLOW",5,100,5,{108,110,84,88,88,112,48,104,100,116,92,100,111,112,94,96,115,116,95,97}},
{"CDLMATCHINGLOW",5,100,5,{108,110,84,88,88,112,48,104,100,116,92,100,96,100,78,86,96,96,87,87}},
{"CDLMATCHINGLOW",6,100,6,{92,108,80,80,88,88,84,88,100,112,98,112,80,128,78,88,104,105,89,89,100,100,80,88}},
{"CDLMATCHINGLOW",6,100,6,{92,108,80,80,88,88,84,88,100,112,98,112,80,128,78,88,104,108,86,88,96,104,86,88}},
{"CDLMATCHINGLOW",7,100,4,{81,118,77,117,106,108,84,84,100,108,40,80,104,104,72,80}},
{"CDLMATCHINGLOW",7,100,4,{81,118,77,117,106,108,84,84,96,100,87,87,100,102,87,88}},
{"CDLMATHOLD",0,100,15,{112,112,92,100,108,108,90,92,96,106,56,104,92,114,91,112,96,100,56,100,88,90,76,84,112,114,86,88,84,116,44,100,96,100,80,96,84,88,80,88,84,100,83,100,104,105,103,103,101,102,94,96,96,100,95,96,104,113,104,112}},
{"CDLMATHOLD",0,100,15,{96,97,88,88,100,108,83,91,104,116,104,116,96,105,96,105,104,112,89,90,100,100,77,85,96,110,88,110,96,100,80,88,104,112,80,88,96,118,94,110,80,93,80,93,109,111,104,104,100,102,87,91,97,105,85,89,119,127,119,119}},
{"CDLMATHOLD",2,100,7,{96,113,96,111,100,104,90,90,87,101,87,100,104,104,100,101,100,108,99,99,96,98,96,96,100,114,98,114}},
{"CDLMATHOLD",3,100,5,{82,102,82,100,105,113,96,104,99,109,99,101,94,100,86,99,111,116,111,116}},
{"CDLMATHOLD",4,100,8,{108,110,96,96,92,93,64,80,108,112,76,80,81,99,80,95,115,115,103,103,91,98,87,96,94,102,93,94,114,121,106,119}},
{"CDLMATHOLD",4,100,8,{115,115,99,103,85,89,80,80,90,98,82,83,80,106,79,98,109,110,100,108,96,104,92,104,100,108,92,92,112,113,108,112}},
{"CDLMATHOLD",5,100,8,{88,112,87,112,104,120,52,92,84,92,40,80,88,112,88,104,112,112,111,111,105,109,98,100,100,108,99,100,101,122,101,114}},
{"CDLMATHOLD",5,100,8,{96,112,83,84,112,120,72,112,104,106,84,84,84,97,44,96,104,104,102,103,96,96,95,95,92,92,76,92,100,112,100,112}},
{"CDLMATHOLD",6,100,9,{104,106,95,103,88,96,80,88,104,104,96,104,104,105,104,105,88,106,88,106,112,116,92,108,104,106,103,105,100,100,92,100,104,118,104,117}},
{"CDLMATHOLD",6,100,9,{92,108,88,100,108,109,88,96,96,96,92,92,104,106,87,88,80,103,80,103,114,114,106,107,100,103,96,102,101,105,91,92,101,120,100,118}},
{"CDLMATHOLD",7,100,7,{100,148,98,108,104,112,88,104,81,102,73,101,112,112,104,106,94,102,92,102,100,101,91,99,117,121,109,117}},
{"CDLMATHOLD",7,100,7,{112,112,96,100,88,112,84,112,83,101,79,101,108,108,98,102,98,108,96,107,100,102,100,102,105,120,101,119}},
{"CDLMORNINGDOJISTAR",0,100,13,{80,96,80,92,100,114,99,112,96,98,76,84,80,96,79,92,108,120,92,112,84,96,84,88,92,100,80,80,112,113,108,112,100,101,44,84,84,94,82,92,104,144,88,88,80,81,76,80,80,104,64,100}},
{"CDLMORNINGDOJISTAR",0,100,13,{88,90,83,87,100,100,95,99,96,96,94,95,100,103,96,101,100,104,98,99,108,110,100,108,108,116,100,108,100,102,92,101,92,93,88,93,84,86,81,83,108,148,84,88,80,81,78,81,99,114,97,106}},
{"CDLMORNINGDOJISTAR",1,100,4,{100,112,92,112,100,104,83,84,80,82,72,81,96,110,94,110}},
{"CDLMORNINGDOJISTAR",1,100,4,{80,81,80,80,96,96,95,95,80,84,78,80,104,122,100,114}},
{"CDLMORNINGDOJISTAR",2,100,5,{100,100,100,100,92,93,92,92,100,100,87,89,84,92,76,84,96,114,92,110}},
{"CDLMORNINGDOJISTAR",2,100,5,{80,85,78,81,100,105,100,101,112,112,64,104,84,100,84,84,104,109,96,108}},
{"CDLMORNINGDOJISTAR",3,100,3,{104,104,89,89,84,88,84,84,84,97,84,96}},
{"CDLMORNINGDOJISTAR",3,100,3,{112,114,104,104,100,100,98,100,88,108,86,108}},
{"CDLMORNINGDOJISTAR",4,100,6,{111,112,86,94,114,118,86,90,94,98,94,97,104,106,93,93,88,89,88,88,100,116,98,116}},
{"CDLMORNINGDOJISTAR",4,100,6,{83,94,83,93,92,110,88,109,117,117,98,100,104,112,60,100,92,100,92,92,80,105,80,104}},
{"CDLMORNINGDOJISTAR",5,100,6,{104,148,103,108,84,140,84,100,104,104,96,104,113,121,100,102,100,108,91,99,100,120,92,112}},
{"CDLMORNINGDOJISTAR",5,100,6,{108,108,106,108,84,86,81,83,96,100,94,96,100,100,99,99,80,84,80,80,108,113,100,109}},
{"CDLMORNINGDOJISTAR",6,100,7,{100,115,96,111,100,109,92,109,104,118,103,118,100,108,100,108,114,115,101,105,104,106,102,102,82,115,82,111}},
{"CDLMORNINGDOJISTAR",6,100,7,{112,112,108,112,92,100,90,92,100,101,100,101,92,96,89,91,100,101,85,85,82,90,80,80,80,108,72,100}},
{"CDLMORNINGDOJISTAR",7,100,5,{112,113,112,113,84,85,76,85,118,118,104,104,88,89,87,89,92,112,52,112}},
{"CDLMORNINGDOJISTAR",7,100,5,{92,106,92,104,96,112,96,104,112,114,88,88,84,86,84,84,95,117,94,117}},
{"CDLMORNINGSTAR",0,100,13,{84,92,76,84,88,92,87,87,80,81,80,81,80,89,72,81,92,97,92,93,112,116,107,111,88,88,87,87,88,90,83,87,108,110,104,109,88,96,80,88,108,112,99,107,84,92,80,84,108,111,108,109}},
{"CDLMORNINGSTAR",0,100,13,{88,88,82,84,88,108,72,100,88,112,87,112,88,89,88,88,96,97,84,84,112,113,88,88,100,101,92,96,80,93,72,92,96,112,95,104,80,81,76,80,112,114,56,96,88,90,84,88,80,112,64,112}},
{"CDLMORNINGSTAR",1,100,4,{112,112,108,112,100,100,92,92,88,92,80,80,100,113,99,113}},
{"CDLMORNINGSTAR",1,100,4,{96,107,94,106,113,117,92,100,92,94,85,89,102,111,94,109}},
{"CDLMORNINGSTAR",2,100,5,{84,84,83,83,100,103,99,101,104,104,94,94,84,84,81,83,104,114,102,114}},
{"CDLMORNINGSTAR",2,100,5,{96,152,80,112,84,100,76,84,104,106,88,90,88,93,80,89,88,109,88,108}},
{"CDLMORNINGSTAR",3,100,3,{104,104,91,93,86,94,76,84,96,113,92,111}},
{"CDLMORNINGSTAR",3,100,3,{119,119,106,107,100,102,98,99,96,120,92,112}},
{"CDLMORNINGSTAR",4,100,6,{104,104,96,104,92,92,83,91,88,91,88,89,100,100,92,92,84,86,84,84,80,104,79,100}},
{"CDLMORNINGSTAR",4,100,6,{88,108,72,100,84,100,82,84,84,93,84,92,108,110,99,101,88,92,88,88,90,104,82,104}},
{"CDLMORNINGSTAR",5,100,6,{104,108,94,94,96,98,85,86,96,97,80,84,112,116,92,96,80,120,76,80,92,112,91,108}},
{"CDLMORNINGSTAR",5,100,6,{96,110,94,110,95,107,94,103,98,110,94,110,118,119,91,92,91,93,86,87,86,120,86,119}},
{"CDLMORNINGSTAR",6,100,7,{84,109,68,108,112,128,92,100,100,140,100,100,96,136,96,96,110,114,94,94,91,91,79,87,87,104,83,102}},
{"CDLMORNINGSTAR",6,100,7,{96,112,56,112,92,132,52,92,88,108,88,92,104,144,95,96,119,121,88,88,82,91,82,83,96,119,96,115}},
{"CDLMORNINGSTAR",7,100,5,{100,104,99,99,100,100,96,100,104,104,84,92,84,84,76,84,92,128,91,112}},
{"CDLMORNINGSTAR",7,100,5,{80,82,80,80,88,102,88,100,96,104,80,84,80,82,80,80,92,104,90,100}},
{"CDLONNECK",0,-100,12,{84,92,79,83,108,116,106,108,88,88,84,88,80,81,79,80,84,86,76,84,80,82,80,81,108,110,107,108,80,82,80,81,84,86,82,83,80,82,72,80,112,112,88,88,84,90,82,88}},
{"CDLONNECK",0,-100,12,{92,116,92,112,80,112,80,112,80,120,80,104,96,104,56,104,100,101,79,80,84,92,80,92,112,112,84,88,100,101,60,100,108,148,84,88,108,112,100,100,115,115,95,95,84,104,76,96}},
{"CDLONNECK",1,-100,3,{105,106,96,100,96,100,81,81,80,82,80,81}},
{"CDLONNECK",1,-100,3,{80,80,40,80,108,108,84,88,80,86,64,84}},
{"CDLONNECK",2,-100,4,{100,100,99,100,100,103,100,101,92,92,88,88,84,96,44,88}},
{"CDLONNECK",2,-100,4,{100,113,100,111,96,114,88,110,119,120,105,105,104,104,103,104}},
{"CDLONNECK",3,-100,2,{108,109,102,104,96,103,96,102}},
{"CDLONNECK",3,-100,2,{118,118,97,97,88,97,88,96}},
{"CDLONNECK",4,-100,5,{100,117,100,109,104,106,84,88,104,122,103,120,108,108,88,88,80,92,40,88}},
{"CDLONNECK",4,-100,5,{88,92,88,92,108,124,100,100,104,112,95,96,108,108,92,92,90,91,82,91}},
{"CDLONNECK",5,-100,5,{112,113,104,104,108,110,84,88,100,102,99,100,119,127,88,92,84,89,44,88}},
{"CDLONNECK",5,-100,5,{96,136,64,80,80,104,80,88,80,88,80,80,108,124,88,88,80,88,80,88}},
{"CDLONNECK",6,-100,6,{108,108,64,104,84,106,68,104,84,92,82,92,92,93,90,92,104,105,103,103,100,103,96,101}},
{"CDLONNECK",6,-100,6,{112,152,92,100,80,100,80,96,96,98,92,92,92,102,88,100,112,114,100,100,92,100,91,100}},
{"CDLONNECK",7,-100,4,{105,106,89,93,93,109,93,109,116,118,86,87,84,128,83,88}},
{"CDLONNECK",7,-100,4,{109,114,105,114,95,103,89,91,108,108,87,88,84,88,84,88}},
{"CDLPIERCING",0,100,12,{104,113,104,112,108,116,108,112,88,96,44,84,80,100,40,84,104,120,99,100,84,152,68,112,80,88,76,88,96,97,68,84,100,101,90,92,92,114,92,112,108,108,89,89,86,104,78,103}},
{"CDLPIERCING",0,100,12,{84,100,82,84,100,108,96,104,104,106,102,104,92,98,92,96,112,128,106,108,88,104,88,104,80,82,80,80,104,114,96,112,96,108,80,104,88,124,72,108,108,110,90,92,88,104,84,104}},
{"CDLPIERCING",1,100,3,{80,87,76,83,119,119,95,99,91,121,87,117}},
{"CDLPIERCING",1,100,3,{96,96,80,88,108,116,84,88,80,144,78,104}},
{"CDLPIERCING",2,100,4,{100,101,95,99,92,93,91,93,117,121,99,99,88,117,80,109}},
{"CDLPIERCING",2,100,4,{100,101,96,100,92,96,92,92,109,113,100,100,92,112,92,108}},
{"CDLPIERCING",3,100,2,{107,108,91,92,82,104,81,104}},
{"CDLPIERCING",3,100,2,{98,98,84,84,82,94,74,94}},
{"CDLPIERCING",4,100,4,{92,101,84,93,92,92,89,91,104,105,82,84,80,100,72,100}},
{"CDLPIERCING",4,100,4,{92,96,88,88,100,100,88,92,112,113,105,107,103,110,103,110}},
{"CDLPIERCING",5,100,5,{104,105,103,103,80,80,79,80,96,96,87,95,119,121,105,105,104,120,104,118}},
{"CDLPIERCING",5,100,5,{92,93,68,84,112,114,79,80,112,113,111,112,110,110,87,95,86,107,86,107}},
{"CDLPIERCING",6,100,3,{100,108,83,87,116,124,95,97,91,115,89,111}},
{"CDLPIERCING",6,100,3,{92,96,88,88,115,115,95,97,83,111,83,111}},
{"CDLPIERCING",7,100,4,{100,140,92,92,108,112,108,108,108,124,90,92,88,105,72,104}},
{"CDLPIERCING",7,100,4,{108,108,91,92,88,101,87,100,113,114,88,90,87,112,86,112}},
{"CDLRICKSHAWMAN",0,100,11,{107,112,105,110,108,110,85,93,99,116,99,115,105,109,81,81,114,118,91,95,99,100,87,89,86,88,78,87,97,105,79,80,80,95,78,91,105,113,90,90,111,115,107,111}},
{"CDLRICKSHAWMAN",0,100,11,{107,112,105,110,108,110,85,93,99,116,99,115,105,109,81,81,114,118,91,95,99,100,87,89,86,88,78,87,97,105,79,80,80,95,78,91,105,113,90,90,112,116,108,112}},
{"CDLRICKSHAWMAN",1,100,2,{117,119,80,88,112,114,108,112}},
{"CDLRICKSHAWMAN",1,100,2,{117,119,80,88,88,89,80,88}},
{"CDLRICKSHAWMAN",2,100,3,{80,120,79,112,112,114,111,112,84,88,80,84}},
{"CDLRICKSHAWMAN",2,100,3,{80,120,79,112,112,114,111,112,84,93,83,85}},
{"CDLRICKSHAWMAN",3,100,1,{84,88,80,84}},
{"CDLRICKSHAWMAN",3,100,1,{92,97,88,93}},
{"CDLRICKSHAWMAN",4,100,3,{104,104,93,93,96,100,81,82,104,108,100,104}},
{"CDLRICKSHAWMAN",4,100,3,{96,114,96,106,96,97,84,86,100,105,92,101}},
{"CDLRICKSHAWMAN",5,100,2,{96,102,94,102,104,106,102,104}},
{"CDLRICKSHAWMAN",5,100,2,{96,102,94,102,96,100,91,95}},
{"CDLRICKSHAWMAN",6,100,5,{96,100,40,80,88,104,88,104,92,94,80,84,84,112,80,108,96,140,56,100}},
{"CDLRICKSHAWMAN",6,100,5,{96,96,88,96,84,84,80,84,84,92,83,83,104,104,103,104,86,94,77,85}},
{"CDLRICKSHAWMAN",7,100,3,{100,116,60,108,108,112,108,112,92,104,84,96}},
{"CDLRICKSHAWMAN",7,100,3,{100,116,60,108,108,112,108,112,96,108,88,100}},
{"CDLRISEFALL3METHODS",0,-100,15,{104,104,82,84,112,113,112,112,96,108,80,104,84,98,44,96,104,105,88,92,92,104,91,104,92,114,52,112,96,96,88,96,112,112,96,112,100,113,92,112,104,108,90,90,88,108,87,92,100,100,84,100,100,110,96,108,104,104,86,88}},
{"CDLRISEFALL3METHODS",0,-100,15,{88,92,88,88,96,112,88,108,88,88,80,88,88,90,84,84,88,128,64,80,88,104,88,104,104,109,102,108,104,116,88,112,88,100,88,100,96,112,76,92,118,122,79,87,100,106,100,104,100,110,100,108,110,115,108,114,96,98,77,85}},
{"CDLRISEFALL3METHODS",0,100,15,{84,89,82,88,96,97,78,80,104,106,96,104,84,112,80,108,104,104,78,80,112,152,84,84,100,100,40,80,88,104,82,84,100,116,48,88,84,112,82,112,80,113,80,109,112,120,105,107,106,110,100,100,94,95,82,82,90,115,89,111}},
{"CDLRISEFALL3METHODS",0,100,15,{96,118,88,118,118,118,99,107,90,119,86,119,118,120,88,92,97,123,97,115,117,125,81,81,110,112,106,110,89,103,89,95,100,101,92,101,110,116,108,114,100,118,92,116,104,104,94,96,104,104,88,92,96,96,81,85,104,117,96,117}},
{"CDLRISEFALL3METHODS",1,-100,6,{104,104,64,104,104,144,48,88,88,100,72,100,96,108,92,104,112,112,112,112,96,97,83,84}},
{"CDLRISEFALL3METHODS",1,-100,6,{88,112,48,104,119,123,86,90,83,97,75,97,98,108,98,108,111,122,110,114,101,102,77,85}},
{"CDLRISEFALL3METHODS",1,100,6,{104,108,88,88,80,106,76,105,115,115,94,95,95,97,89,89,85,89,79,83,92,122,84,118}},
{"CDLRISEFALL3METHODS",1,100,6,{104,148,104,108,81,110,80,102,107,111,87,91,102,104,79,87,92,96,72,80,96,127,96,119}},
{"CDLRISEFALL3METHODS",2,-100,7,{84,97,84,96,84,86,40,80,112,116,95,96,92,100,92,100,104,110,102,106,112,120,108,112,96,96,77,85}},
{"CDLRISEFALL3METHODS",2,-100,7,{96,96,82,82,104,106,91,95,115,123,99,99,98,111,94,107,103,112,103,111,112,118,112,116,108,116,81,81}},
{"CDLRISEFALL3METHODS",2,100,7,{100,115,98,111,100,114,96,114,88,121,88,113,119,127,90,98,106,107,91,91,94,94,83,83,88,115,88,115}},
{"CDLRISEFALL3METHODS",2,100,7,{113,114,90,98,98,99,94,99,81,103,73,99,104,106,92,93,95,99,86,86,84,88,72,80,92,112,91,108}},
{"CDLRISEFALL3METHODS",3,-100,5,{112,113,95,96,100,101,92,100,80,124,64,108,96,128,56,112,96,104,78,80}},
{"CDLRISEFALL3METHODS",3,-100,5,{118,118,89,97,100,104,99,100,104,112,102,104,108,112,104,108,96,96,83,83}},
{"CDLRISEFALL3METHODS",3,100,5,{80,103,80,102,100,140,95,96,96,96,84,92,88,128,76,84,87,120,79,118}},
{"CDLRISEFALL3METHODS",3,100,5,{80,96,76,92,100,104,48,88,96,136,84,84,96,136,80,80,84,96,76,96}},
{"CDLRISEFALL3METHODS",4,-100,8,{108,108,100,104,84,84,64,80,100,108,100,100,104,108,80,88,96,112,88,104,100,109,96,109,100,110,99,110,100,100,84,86}},
{"CDLRISEFALL3METHODS",4,-100,8,{92,93,92,93,86,87,74,82,87,117,83,117,96,96,92,92,92,136,76,96,84,140,84,100,92,105,84,104,96,100,40,80}},
{"CDLRISEFALL3METHODS",4,100,8,{108,116,100,104,88,105,87,104,96,96,92,92,84,132,80,92,108,108,92,96,100,108,76,92,92,94,44,84,92,120,52,112}},
{"CDLRISEFALL3METHODS",4,100,8,{97,119,95,111,82,98,74,96,118,118,83,87,80,124,78,84,112,116,95,96,96,97,91,92,88,90,80,80,92,108,88,108}},
{"CDLRISEFALL3METHODS",5,-100,8,{104,118,104,118,96,112,95,110,100,118,100,116,112,116,96,97,89,101,81,99,107,115,107,115,111,119,111,118,113,115,87,89}},
{"CDLRISEFALL3METHODS",5,-100,8,{116,117,99,100,104,114,102,113,101,111,101,111,100,108,83,85,96,112,88,108,100,120,99,112,104,115,100,115,96,100,74,82}},
{"CDLRISEFALL3METHODS",5,100,8,{96,104,96,96,84,88,81,83,96,101,92,97,81,104,81,104,112,112,94,102,92,92,90,91,87,88,80,82,100,114,92,114}},
{"CDLRISEFALL3METHODS",5,100,8,{96,96,72,80,100,108,91,91,96,106,88,106,96,114,96,110,104,108,96,96,104,112,86,94,100,100,88,92,104,127,102,119}},
{"CDLRISEFALL3METHODS",6,-100,9,{80,81,40,80,84,136,84,96,104,106,68,84,92,100,90,92,104,112,99,103,100,101,100,101,104,105,104,104,108,116,108,108,80,82,79,79}},
{"CDLRISEFALL3METHODS",6,-100,9,{92,132,76,80,112,112,56,96,80,101,80,100,80,85,80,84,115,119,84,86,81,92,81,88,95,106,93,104,105,109,97,109,106,106,83,83}},
{"CDLRISEFALL3METHODS",6,100,9,{100,114,100,110,96,112,96,112,96,115,94,107,100,111,99,111,96,118,94,110,104,112,94,96,104,108,94,94,100,100,91,92,100,112,96,112}},
{"CDLRISEFALL3METHODS",6,100,9,{84,104,84,88,80,96,40,92,88,104,80,100,84,84,40,80,80,111,80,103,119,120,106,107,99,100,95,96,86,88,81,81,106,127,106,119}},
{"CDLRISEFALL3METHODS",7,-100,7,{108,108,76,80,108,120,108,112,104,112,88,88,96,105,94,105,96,108,88,108,104,116,100,112,100,104,86,87}},
{"CDLRISEFALL3METHODS",7,-100,7,{90,118,90,114,96,110,92,108,104,105,88,89,96,108,92,106,96,116,95,108,100,110,96,109,96,97,81,81}},
{"CDLRISEFALL3METHODS",7,100,7,{100,102,86,90,104,108,87,88,96,112,88,108,104,108,90,91,100,102,88,90,100,102,87,89,104,122,100,120}},
{"CDLRISEFALL3METHODS",7,100,7,{86,90,78,89,93,93,79,87,85,114,81,112,102,103,93,101,104,112,96,96,85,85,80,82,95,119,91,119}},
{"CDLSEPARATINGLINES",0,-100,12,{104,107,103,105,104,108,100,104,96,104,87,95,100,108,97,99,80,84,79,79,108,110,108,109,100,102,100,101,80,84,71,79,80,82,79,79,108,109,107,107,96,114,94,112,96,96,82,82}},
{"CDLSEPARATINGLINES",0,-100,12,{96,96,80,84,108,116,40,80,96,101,56,100,80,89,80,88,84,88,76,84,80,86,80,84,100,104,92,96,104,106,99,100,100,101,84,100,92,92,92,92,96,111,94,111,96,97,79,80}},
{"CDLSEPARATINGLINES",0,100,12,{100,100,82,84,100,113,99,109,96,98,79,80,100,108,87,89,100,102,86,87,96,104,77,85,96,104,83,84,96,114,94,106,104,122,100,118,100,119,100,111,100,108,88,92,100,124,100,116}},
{"CDLSEPARATINGLINES",0,100,12,{100,100,82,84,100,113,99,109,96,98,79,80,100,108,87,89,100,102,86,87,96,104,77,85,96,104,83,84,96,114,94,106,104,122,100,118,100,119,100,111,96,97,88,88,96,109,96,108}},
{"CDLSEPARATINGLINES",1,-100,3,{84,84,68,84,88,88,84,88,88,88,87,87}},
{"CDLSEPARATINGLINES",1,-100,3,{92,104,92,104,96,113,94,109,96,96,73,81}},
{"CDLSEPARATINGLINES",1,100,3,{112,113,94,96,96,96,84,88,96,111,96,110}},
{"CDLSEPARATINGLINES",1,100,3,{92,104,92,104,92,108,78,80,92,120,90,112}},
{"CDLSEPARATINGLINES",2,-100,4,{115,119,105,106,85,87,85,85,96,114,96,110,96,96,74,82}},
{"CDLSEPARATINGLINES",2,-100,4,{96,104,94,100,96,114,96,112,96,109,96,105,96,98,78,80}},
{"CDLSEPARATINGLINES",2,100,4,{115,119,105,106,85,87,85,85,100,100,95,99,100,103,100,101}},
{"CDLSEPARATINGLINES",2,100,4,{80,112,72,96,96,108,94,108,100,108,83,85,100,116,100,116}},
{"CDLSEPARATINGLINES",3,-100,2,{100,112,92,112,100,100,82,90}},
{"CDLSEPARATINGLINES",3,-100,2,{88,88,80,88,88,88,82,84}},
{"CDLSEPARATINGLINES",3,100,2,{100,108,91,91,100,118,99,114}},
{"CDLSEPARATINGLINES",3,100,2,{104,105,83,91,104,117,104,113}},
{"CDLSEPARATINGLINES",4,-100,5,{100,123,99,115,104,104,94,96,100,104,86,87,83,112,82,112,85,85,80,80}},
{"CDLSEPARATINGLINES",4,-100,5,{112,112,107,108,100,140,44,84,96,106,96,104,97,113,93,105,97,97,78,82}},
{"CDLSEPARATINGLINES",4,100,5,{92,116,88,108,112,112,100,100,100,104,98,104,100,100,79,87,100,114,100,114}},
{"CDLSEPARATINGLINES",4,100,5,{92,116,88,108,112,112,100,100,100,104,98,104,105,113,85,86,105,126,105,118}},
{"CDLSEPARATINGLINES",5,-100,5,{108,109,108,108,100,108,92,100,96,104,96,100,96,107,92,105,96,96,86,86}},
{"CDLSEPARATINGLINES",5,-100,5,{92,95,88,93,96,97,87,95,80,82,80,81,92,94,84,92,92,92,87,91}},
{"CDLSEPARATINGLINES",5,100,5,{108,109,108,108,100,108,92,100,96,104,96,100,92,132,76,80,92,108,92,108}},
{"CDLSEPARATINGLINES",5,100,5,{112,113,72,112,96,98,76,92,96,97,92,96,104,108,88,89,104,117,104,113}},
{"CDLSEPARATINGLINES",6,-100,6,{112,120,100,104,80,112,72,108,84,116,68,100,84,85,82,84,104,105,102,104,104,108,99,103}},
{"CDLSEPARATINGLINES",6,-100,6,{112,120,100,104,80,112,72,108,84,116,68,100,84,85,82,84,104,113,100,113,104,106,80,88}},
{"CDLSEPARATINGLINES",6,100,6,{112,116,76,80,100,102,44,84,96,112,40,80,92,94,82,84,100,100,92,92,96,112,95,108}},
{"CDLSEPARATINGLINES",6,100,6,{112,116,76,80,100,102,44,84,96,112,40,80,92,94,82,84,96,100,84,84,96,116,92,112}},
{"CDLSEPARATINGLINES",7,-100,4,{100,102,76,84,92,109,91,105,96,111,92,109,96,96,85,85}},
{"CDLSEPARATINGLINES",7,-100,4,{104,123,96,115,104,108,89,89,96,112,96,104,96,96,83,83}},
{"CDLSEPARATINGLINES",7,100,4,{104,108,99,103,80,82,79,81,100,101,80,84,100,111,100,110}},
{"CDLSEPARATINGLINES",7,100,4,{104,108,99,103,80,82,79,81,104,106,85,93,104,127,104,119}},
{"CDLSHOOTINGSTAR",0,-100,12,{104,113,104,113,96,110,96,110,100,104,80,88,96,118,96,110,100,108,82,86,104,112,83,91,96,96,82,84,100,111,100,111,96,98,83,83,96,104,83,83,80,81,77,79,92,97,92,93}},
{"CDLSHOOTINGSTAR",0,-100,12,{104,113,104,113,96,110,96,110,100,104,80,88,96,118,96,110,100,108,82,86,104,112,83,91,96,96,82,84,100,111,100,111,96,98,83,83,96,104,83,83,84,92,82,84,88,92,87,87}},
{"CDLSHOOTINGSTAR",1,-100,3,{112,113,95,96,100,100,87,88,104,112,104,104}},
{"CDLSHOOTINGSTAR",1,-100,3,{80,90,79,88,92,97,92,93,104,106,104,104}},
{"CDLSHOOTINGSTAR",2,-100,3,{108,124,80,84,84,88,64,80,108,124,108,108}},
{"CDLSHOOTINGSTAR",2,-100,3,{108,124,80,84,96,100,56,100,112,120,104,112}},
{"CDLSHOOTINGSTAR",3,-100,2,{92,94,90,93,104,108,103,103}},
{"CDLSHOOTINGSTAR",3,-100,2,{96,100,96,96,100,152,98,112}},
{"CDLSHOOTINGSTAR",4,-100,5,{88,88,85,87,80,89,80,81,80,80,79,79,88,92,87,87,108,110,107,107}},
{"CDLSHOOTINGSTAR",4,-100,5,{92,128,84,112,112,152,78,80,92,96,91,96,80,81,80,80,104,108,103,103}},
{"CDLSHOOTINGSTAR",5,-100,4,{84,88,80,84,88,89,80,88,88,96,86,87,112,120,111,112}},
{"CDLSHOOTINGSTAR",5,-100,4,{89,113,87,111,88,88,72,80,80,81,72,80,108,112,107,108}},
{"CDLSHOOTINGSTAR",6,-100,6,{80,84,76,80,85,86,84,86,103,105,83,84,114,114,97,105,83,97,83,93,104,115,102,107}},
{"CDLSHOOTINGSTAR",6,-100,6,{80,84,76,80,85,86,84,86,103,105,83,84,114,114,97,105,88,128,80,80,93,110,93,102}},
{"CDLSHOOTINGSTAR",7,-100,4,{104,120,100,100,96,100,44,84,92,94,92,92,100,109,100,101}},
{"CDLSHOOTINGSTAR",7,-100,4,{104,120,100,100,96,100,44,84,96,96,92,96,112,117,112,113}},
{"CDLSHORTLINE",0,-100,11,{84,92,80,92,92,96,84,92,104,120,92,92,104,105,87,88,84,124,76,84,112,128,76,92,104,112,103,108,112,116,48,88,112,114,86,88,108,116,88,88,112,112,99,100}},
{"CDLSHORTLINE",0,-100,11,{84,92,80,92,92,96,84,92,104,120,92,92,104,105,87,88,84,124,76,84,112,128,76,92,104,112,103,108,112,116,48,88,112,114,86,88,108,116,88,88,96,100,87,87}},
{"CDLSHORTLINE",0,100,11,{84,92,80,92,92,96,84,92,104,120,92,92,104,105,87,88,84,124,76,84,112,128,76,92,104,112,103,108,112,116,48,88,112,114,86,88,108,116,88,88,112,115,112,113}},
{"CDLSHORTLINE",0,100,11,{84,92,80,92,92,96,84,92,104,120,92,92,104,105,87,88,84,124,76,84,112,128,76,92,104,112,103,108,112,116,48,88,112,114,86,88,108,116,88,88,96,108,92,104}},
{"CDLSHORTLINE",1,-100,2,{84,90,83,88,104,104,103,103}},
{"CDLSHORTLINE",1,-100,2,{84,90,83,88,84,84,83,83}},
{"CDLSHORTLINE",1,100,2,{84,90,83,88,112,113,112,112}},
{"CDLSHORTLINE",1,100,2,{84,90,83,88,84,85,84,85}},
{"CDLSHORTLINE",2,-100,3,{92,112,76,112,84,108,80,104,100,100,87,87}},
{"CDLSHORTLINE",2,-100,3,{92,112,76,112,84,108,80,104,96,96,86,87}},
{"CDLSHORTLINE",2,100,3,{104,108,103,104,108,113,104,109,80,81,80,80}},
{"CDLSHORTLINE",2,100,3,{92,112,76,112,84,108,80,104,100,108,99,108}},
{"CDLSHORTLINE",4,-100,4,{93,115,91,113,100,100,88,90,115,116,101,102,104,104,96,96}},
{"CDLSHORTLINE",4,-100,4,{93,115,91,113,100,100,88,90,115,116,101,102,112,116,109,111}},
{"CDLSHORTLINE",4,100,4,{93,115,91,113,100,100,88,90,115,116,101,102,104,112,104,112}},
{"CDLSHORTLINE",4,100,4,{93,115,91,113,100,100,88,90,115,116,101,102,108,109,108,109}},
{"CDLSHORTLINE",5,-100,4,{92,98,76,96,100,108,98,108,100,116,79,80,92,96,87,91}},
{"CDLSHORTLINE",5,-100,4,{92,98,76,96,100,108,98,108,100,116,79,80,96,96,84,88}},
{"CDLSHORTLINE",5,100,4,{92,98,76,96,100,108,98,108,100,116,79,80,84,86,82,84}},
{"CDLSHORTLINE",5,100,4,{92,98,76,96,100,108,98,108,100,116,79,80,96,98,96,96}},
{"CDLSHORTLINE",6,-100,5,{88,96,78,80,108,120,104,112,92,100,80,84,80,128,80,88,108,108,107,107}},
{"CDLSHORTLINE",6,-100,5,{88,96,78,80,108,120,104,112,92,100,80,84,80,128,80,88,112,120,110,111}},
{"CDLSHORTLINE",6,100,5,{88,96,78,80,108,120,104,112,92,100,80,84,80,128,80,88,100,102,98,101}},
{"CDLSHORTLINE",6,100,5,{88,96,78,80,108,120,104,112,92,100,80,84,80,128,80,88,96,100,88,96}},
{"CDLSHORTLINE",7,-100,3,{92,140,91,100,96,96,92,92,100,101,98,99}},
{"CDLSHORTLINE",7,-100,3,{92,140,91,100,96,96,92,92,84,84,82,83}},
{"CDLSHORTLINE",7,100,3,{92,140,91,100,96,96,92,92,84,85,82,84}},
{"CDLSHORTLINE",7,100,3,{92,140,91,100,96,96,92,92,84,87,84,85}},
{"CDLSPINNINGTOP",0,-100,11,{96,96,85,85,104,122,100,114,104,118,100,116,104,108,88,88,100,115,96,113,104,106,89,89,104,106,92,96,96,96,79,87,104,114,96,114,96,104,83,83,108,116,103,107}},
{"CDLSPINNINGTOP",0,-100,11,{96,96,85,85,104,122,100,114,104,118,100,116,104,108,88,88,100,115,96,113,104,106,89,89,104,106,92,96,96,96,79,87,104,114,96,114,96,104,83,83,112,116,107,111}},
{"CDLSPINNINGTOP",0,100,11,{96,99,96,97,80,88,72,80,112,112,110,111,100,105,100,101,88,89,85,87,84,85,83,85,80,85,80,81,108,109,106,107,112,113,108,113,96,96,96,96,108,110,104,108}},
{"CDLSPINNINGTOP",0,100,11,{96,99,96,97,80,88,72,80,112,112,110,111,100,105,100,101,88,89,85,87,84,85,83,85,80,85,80,81,108,109,106,107,112,113,108,113,96,96,96,96,108,112,100,108}},
{"CDLSPINNINGTOP",1,-100,2,{104,108,72,88,104,112,95,103}},
{"CDLSPINNINGTOP",1,-100,2,{112,112,90,92,84,86,79,83}},
{"CDLSPINNINGTOP",1,100,2,{96,104,81,82,104,107,100,105}},
{"CDLSPINNINGTOP",1,100,2,{96,104,81,82,92,100,84,92}},
{"CDLSPINNINGTOP",2,-100,2,{100,112,100,112,104,106,99,103}},
{"CDLSPINNINGTOP",2,-100,2,{100,112,100,112,84,92,79,83}},
{"CDLSPINNINGTOP",2,100,2,{100,112,100,112,108,116,107,108}},
{"CDLSPINNINGTOP",2,100,2,{100,112,100,112,84,92,44,84}},
{"CDLSPINNINGTOP",3,-100,1,{96,100,91,95}},
{"CDLSPINNINGTOP",3,-100,1,{96,98,87,95}},
{"CDLSPINNINGTOP",3,100,1,{100,108,60,100}},
{"CDLSPINNINGTOP",3,100,1,{96,98,92,96}},
{"CDLSPINNINGTOP",4,-100,4,{96,96,79,87,104,106,93,94,100,120,100,112,112,120,100,108}},
{"CDLSPINNINGTOP",4,-100,4,{96,96,79,87,104,106,93,94,100,120,100,112,84,86,79,83}},
{"CDLSPINNINGTOP",4,100,4,{96,96,79,87,104,106,93,94,100,120,100,112,80,82,79,80}},
{"CDLSPINNINGTOP",4,100,4,{96,96,79,87,104,106,93,94,100,120,100,112,92,101,88,93}},
{"CDLSPINNINGTOP",5,-100,3,{80,148,72,108,104,152,104,112,112,116,103,111}},
{"CDLSPINNINGTOP",5,-100,3,{80,148,72,108,104,152,104,112,88,92,85,87}},
{"CDLSPINNINGTOP",5,100,3,{80,148,72,108,104,152,104,112,108,110,106,108}},
{"CDLSPINNINGTOP",5,100,3,{80,148,72,108,104,152,104,112,112,120,110,112}},
{"CDLSPINNINGTOP",6,-100,5,{96,111,94,110,100,108,84,92,100,116,100,108,104,117,104,113,112,120,100,108}},
{"CDLSPINNINGTOP",6,-100,5,{96,111,94,110,100,108,84,92,100,116,100,108,104,117,104,113,80,88,75,79}},
{"CDLSPINNINGTOP",6,100,5,{83,107,83,105,94,102,92,102,87,88,83,85,103,107,91,92,104,105,100,104}},
{"CDLSPINNINGTOP",6,100,5,{83,107,83,105,94,102,92,102,87,88,83,85,103,107,91,92,112,114,104,112}},
{"CDLSPINNINGTOP",7,-100,3,{104,112,76,84,92,116,91,100,100,104,95,99}},
{"CDLSPINNINGTOP",7,-100,3,{104,112,76,84,92,116,91,100,104,112,101,103}},
{"CDLSPINNINGTOP",7,100,3,{104,112,76,84,92,116,91,100,117,118,116,117}},
{"CDLSPINNINGTOP",7,100,3,{104,112,76,84,92,116,91,100,96,112,94,96}},
{"CDLSTALLEDPATTERN",0,-100,13,{108,110,92,96,96,104,52,92,96,100,96,96,88,104,88,88,96,100,96,100,92,108,92,100,108,148,88,88,92,132,40,80,80,148,40,108,112,112,96,96,96,118,88,110,100,111,98,111,104,116,96,114}},
{"CDLSTALLEDPATTERN",0,-100,13,{90,93,86,93,110,110,95,96,115,115,85,93,91,105,91,103,90,102,86,101,100,104,93,94,99,109,99,105,83,91,81,91,104,104,97,97,103,103,97,101,82,101,81,100,85,105,81,104,108,114,108,114}},
{"CDLSTALLEDPATTERN",1,-100,4,{104,144,103,104,90,101,90,99,100,116,100,115,112,117,108,117}},
{"CDLSTALLEDPATTERN",1,-100,4,{88,90,76,84,88,100,80,96,89,103,89,103,107,116,107,112}},
{"CDLSTALLEDPATTERN",2,-100,5,{104,108,96,100,88,124,80,108,88,114,80,112,91,122,91,114,100,115,92,115}},
{"CDLSTALLEDPATTERN",2,-100,5,{88,94,72,92,96,104,84,84,83,103,83,103,88,109,48,108,112,120,111,112}},
{"CDLSTALLEDPATTERN",3,-100,3,{83,116,81,108,88,114,88,112,112,117,112,113}},
{"CDLSTALLEDPATTERN",3,-100,3,{84,94,83,92,92,109,92,108,84,152,83,112}},
{"CDLSTALLEDPATTERN",4,-100,6,{112,113,84,84,92,94,82,84,96,136,92,96,83,109,81,109,100,114,98,113,116,117,114,117}},
{"CDLSTALLEDPATTERN",4,-100,6,{96,96,96,96,104,105,102,105,80,80,71,79,94,102,92,101,98,112,98,112,114,120,106,119}},
{"CDLSTALLEDPATTERN",5,-100,6,{104,112,102,104,88,90,80,89,80,82,80,81,88,98,88,96,96,104,88,104,108,109,107,108}},
{"CDLSTALLEDPATTERN",5,-100,6,{108,108,108,108,88,88,85,87,88,88,88,88,81,113,81,109,93,111,93,110,109,120,108,116}},
{"CDLSTALLEDPATTERN",6,-100,7,{92,92,88,88,92,92,88,88,112,128,80,96,88,116,48,100,96,115,92,111,100,117,99,116,104,126,104,118}},
{"CDLSTALLEDPATTERN",6,-100,7,{96,96,83,85,100,117,92,113,96,100,76,80,104,112,91,92,86,109,86,101,91,112,89,111,98,120,94,112}},
{"CDLSTALLEDPATTERN",7,-100,5,{100,105,100,101,92,93,90,93,80,108,78,100,84,104,76,104,100,116,99,112}},
{"CDLSTALLEDPATTERN",7,-100,5,{96,110,96,108,100,112,100,110,96,104,88,104,100,112,96,111,104,112,103,112}},
{"CDLSTICKSANDWICH",0,100,8,{100,100,96,96,96,112,80,108,80,80,64,80,84,104,68,104,80,89,76,88,100,100,87,91,100,118,99,110,100,100,89,91}},
{"CDLSTICKSANDWICH",0,100,8,{100,100,96,96,96,112,80,108,80,80,64,80,84,104,68,104,80,89,76,88,100,102,82,84,100,110,99,108,104,108,84,84}},
{"CDLSTICKSANDWICH",1,100,4,{104,106,104,105,112,112,87,88,96,120,92,104,108,108,48,88}},
{"CDLSTICKSANDWICH",1,100,4,{80,104,80,96,106,106,95,99,105,112,105,112,111,113,94,98}},
{"CDLSTICKSANDWICH",2,100,4,{84,140,80,100,100,101,87,88,100,117,100,109,100,101,81,85}},
{"CDLSTICKSANDWICH",2,100,4,{84,140,80,100,91,95,80,82,85,125,85,117,90,92,80,80}},
{"CDLSTICKSANDWICH",3,100,3,{112,113,96,100,112,128,112,112,108,116,100,100}},
{"CDLSTICKSANDWICH",3,100,3,{96,96,82,84,104,116,96,116,96,98,75,83}},
{"CDLSTICKSANDWICH",4,100,6,{104,116,96,116,100,108,100,108,104,104,95,96,96,96,83,83,100,100,100,100,84,88,83,83}},
{"CDLSTICKSANDWICH",4,100,6,{108,110,91,92,92,108,92,92,108,110,94,96,108,108,52,92,108,108,104,108,112,113,84,92}},
{"CDLSTICKSANDWICH",5,100,6,{100,148,84,108,88,96,87,96,80,116,64,108,96,104,84,88,100,112,96,112,104,112,86,88}},
{"CDLSTICKSANDWICH",5,100,6,{84,98,83,96,80,108,78,100,84,104,80,104,108,108,68,84,92,132,90,92,96,98,76,84}},
{"CDLSTICKSANDWICH",6,100,7,{88,92,87,92,84,84,84,84,92,104,52,96,108,112,104,112,104,112,93,93,104,124,102,120,104,105,92,92}},
{"CDLSTICKSANDWICH",6,100,7,{88,92,87,92,84,84,84,84,92,104,52,96,108,112,104,112,108,108,83,87,92,100,91,100,116,118,79,87}},
{"CDLSTICKSANDWICH",7,100,5,{84,104,76,104,88,96,72,96,100,108,76,84,96,104,94,104,88,88,85,87}},
{"CDLSTICKSANDWICH",7,100,5,{95,96,91,93,80,104,79,100,100,101,79,80,84,112,84,112,108,148,64,80}},
{"CDLTAKURI",0,100,11,{103,119,95,111,102,103,97,97,94,119,94,119,110,112,103,107,97,99,93,98,104,104,95,99,117,117,97,101,82,116,81,115,80,92,80,91,86,123,86,119,84,84,75,83}},
{"CDLTAKURI",0,100,11,{96,118,95,110,96,111,94,111,96,110,88,110,104,106,94,94,96,106,96,106,100,102,88,90,104,108,93,93,104,104,90,90,100,104,87,89,100,108,86,90,88,89,87,88}},
{"CDLTAKURI",1,100,2,{80,97,72,89,112,113,104,113}},
{"CDLTAKURI",1,100,2,{80,97,72,89,92,92,83,91}},
{"CDLTAKURI",2,100,3,{112,120,103,111,104,106,102,105,84,85,80,85}},
{"CDLTAKURI",2,100,3,{88,112,88,104,100,108,95,96,80,85,40,84}},
{"CDLTAKURI",3,100,1,{112,112,108,112}},
{"CDLTAKURI",3,100,1,{92,96,52,96}},
{"CDLTAKURI",4,100,3,{108,110,83,84,112,114,82,84,108,108,96,104}},
{"CDLTAKURI",4,100,3,{92,94,83,91,100,108,100,100,84,85,44,84}},
{"CDLTAKURI",5,100,3,{104,104,95,103,108,109,100,109,88,89,79,87}},
{"CDLTAKURI",5,100,3,{104,104,95,103,108,109,100,109,96,96,88,96}},
{"CDLTAKURI",6,100,5,{100,140,72,80,104,120,84,92,96,136,88,88,92,132,83,84,96,96,48,88}},
{"CDLTAKURI",6,100,5,{96,108,96,100,92,108,92,108,96,136,80,88,80,108,80,100,112,112,72,112}},
{"CDLTAKURI",7,100,3,{100,101,97,99,96,100,94,96,92,93,84,93}},
{"CDLTAKURI",7,100,3,{112,120,108,119,87,96,79,96,88,89,80,88}},
{"CDLTASUKIGAP",0,-100,8,{100,114,98,110,96,98,79,80,96,100,85,85,96,107,96,107,104,106,90,91,105,113,91,99,86,86,80,82,85,96,81,92}},
{"CDLTASUKIGAP",0,-100,8,{116,124,90,90,104,110,104,109,87,119,87,119,112,116,94,98,117,125,100,108,119,127,109,113,108,112,90,91,93,114,91,110}},
{"CDLTASUKIGAP",0,100,8,{80,94,78,94,119,119,90,90,119,119,99,100,101,102,80,88,89,111,85,110,80,84,40,80,92,120,92,104,96,136,80,88}},
{"CDLTASUKIGAP",0,100,8,{92,116,84,108,92,108,52,92,112,128,99,100,96,96,72,88,108,148,84,92,82,96,78,88,102,112,98,111,108,112,93,93}},
{"CDLTASUKIGAP",1,-100,4,{100,100,88,88,110,112,96,96,90,92,75,83,87,92,83,92}},
{"CDLTASUKIGAP",1,-100,4,{103,108,103,106,112,119,112,119,105,113,88,89,95,112,95,110}},
{"CDLTASUKIGAP",1,100,4,{104,120,99,100,88,89,40,80,100,120,98,112,104,105,56,96}},
{"CDLTASUKIGAP",1,100,4,{112,113,111,112,96,97,80,88,104,112,102,112,105,105,93,101}},
{"CDLTASUKIGAP",2,-100,5,{92,101,92,93,112,113,104,113,104,109,100,105,100,100,84,84,89,107,88,103}},
{"CDLTASUKIGAP",2,-100,5,{92,104,76,96,80,100,80,92,112,113,97,105,97,98,90,90,96,103,88,102}},
{"CDLTASUKIGAP",2,100,5,{92,104,91,96,108,108,86,88,92,92,85,87,105,119,105,119,111,111,99,100}},
{"CDLTASUKIGAP",2,100,5,{96,100,88,88,84,112,83,108,92,95,90,93,104,115,104,115,108,112,98,98}},
{"CDLTASUKIGAP",3,-100,3,{114,116,109,111,99,100,88,92,97,110,97,106}},
{"CDLTASUKIGAP",3,-100,3,{94,94,93,94,92,96,86,90,91,97,90,93}},
{"CDLTASUKIGAP",3,100,3,{90,96,86,92,100,109,98,109,105,109,96,98}},
{"CDLTASUKIGAP",3,100,3,{92,93,84,92,104,117,103,116,112,116,100,100}},
{"CDLTASUKIGAP",4,-100,5,{90,119,86,111,104,111,103,111,119,120,97,105,95,95,86,90,92,98,90,98}},
{"CDLTASUKIGAP",4,-100,5,{96,112,44,84,84,84,44,84,100,148,99,108,92,94,84,84,88,104,80,96}},
{"CDLTASUKIGAP",4,100,5,{105,107,83,83,119,119,87,87,80,84,64,84,100,114,92,112,108,108,96,96}},
{"CDLTASUKIGAP",4,100,5,{94,102,81,85,95,99,76,80,80,88,72,87,100,114,100,113,104,105,90,94}},
{"CDLTASUKIGAP",5,-100,4,{80,136,40,96,104,152,104,112,92,92,40,80,84,102,68,100}},
{"CDLTASUKIGAP",5,-100,4,{96,114,94,106,111,121,110,119,100,100,78,80,88,108,72,108}},
{"CDLTASUKIGAP",5,100,4,{104,106,90,94,97,98,89,90,108,115,106,114,110,111,102,106}},
{"CDLTASUKIGAP",5,100,4,{94,96,94,96,97,97,73,81,104,113,102,113,110,118,103,103}},
{"CDLTASUKIGAP",6,-100,7,{104,104,89,90,96,105,94,105,104,108,81,89,96,113,92,112,116,116,108,109,91,99,85,85,86,98,86,96}},
{"CDLTASUKIGAP",6,-100,7,{104,144,48,88,92,100,90,100,112,128,44,84,88,108,80,108,108,112,102,106,92,96,85,85,90,113,89,105}},
{"CDLTASUKIGAP",6,100,7,{104,104,87,88,96,96,80,80,84,88,44,88,100,108,52,92,80,92,78,84,98,118,90,118,113,115,91,91}},
{"CDLTASUKIGAP",6,100,7,{104,104,89,90,96,105,94,105,104,108,81,89,96,113,92,112,88,92,88,88,104,115,96,113,108,124,56,96}},
{"CDLTASUKIGAP",7,-100,5,{80,120,79,80,112,112,52,92,104,109,100,105,95,96,84,84,90,101,86,101}},
{"CDLTASUKIGAP",7,-100,5,{80,80,80,80,80,80,75,79,112,152,104,108,104,104,93,93,95,111,95,107}},
{"CDLTASUKIGAP",7,100,5,{104,104,80,84,104,120,103,104,88,128,78,80,96,107,88,107,104,105,88,92}},
{"CDLTASUKIGAP",7,100,5,{88,102,72,100,108,116,96,96,84,84,81,83,100,116,96,116,112,152,96,96}},
{"CDLTHRUSTING",0,-100,12,{100,115,98,114,117,121,81,82,107,108,99,99,93,97,89,95,114,116,113,116,110,113,108,113,119,119,78,86,101,101,89,90,84,100,80,96,83,121,81,119,113,117,94,95,84,107,80,99}},
{"CDLTHRUSTING",0,-100,12,{80,81,80,81,84,92,79,83,96,98,92,96,112,113,104,113,100,100,100,100,100,108,99,100,80,85,78,81,108,108,108,108,112,115,112,113,80,88,71,79,113,121,93,101,89,107,89,106}},
{"CDLTHRUSTING",1,-100,3,{100,109,92,108,114,122,94,96,87,103,87,102}},
{"CDLTHRUSTING",1,-100,3,{112,114,111,112,109,109,88,89,84,101,82,99}},
{"CDLTHRUSTING",2,-100,4,{104,119,102,118,104,106,93,94,108,109,83,87,80,92,72,91}},
{"CDLTHRUSTING",2,-100,4,{84,86,83,83,104,106,101,103,104,106,88,88,84,108,84,92}},
{"CDLTHRUSTING",3,-100,2,{116,124,90,90,89,97,89,97}},
{"CDLTHRUSTING",3,-100,2,{117,118,107,111,80,115,80,114}},
{"CDLTHRUSTING",4,-100,5,{100,101,96,101,92,93,90,92,80,80,71,79,112,120,104,104,100,116,99,108}},
{"CDLTHRUSTING",4,-100,5,{104,120,104,120,100,116,98,108,104,122,96,118,112,116,94,96,80,104,64,104}},
{"CDLTHRUSTING",5,-100,5,{80,81,79,79,92,92,91,92,92,101,92,93,117,118,102,104,98,110,90,108}},
{"CDLTHRUSTING",5,-100,5,{88,89,80,80,84,120,82,112,108,110,103,104,107,108,86,86,80,91,78,89}},
{"CDLTHRUSTING",6,-100,6,{112,112,92,92,88,89,48,88,80,104,64,104,108,148,88,92,114,116,91,93,86,102,84,102}},
{"CDLTHRUSTING",6,-100,6,{80,88,80,80,92,92,88,92,108,112,107,108,84,85,76,85,112,112,95,96,88,109,86,101}},
{"CDLTHRUSTING",7,-100,4,{100,100,99,99,100,100,99,100,119,123,102,102,96,110,95,108}},
{"CDLTHRUSTING",7,-100,4,{100,117,92,116,96,107,94,105,108,148,84,92,80,101,78,100}},
{"CDLTRISTAR",0,-100,13,{112,128,76,92,80,108,78,92,108,108,106,108,96,98,88,92,112,128,72,88,112,114,104,104,92,108,87,88,112,116,96,96,108,116,68,112,112,112,76,84,80,84,79,79,112,114,109,111,104,112,99,103}},
{"CDLTRISTAR",0,-100,13,{112,128,76,92,80,108,78,92,108,108,106,108,96,98,88,92,112,128,72,88,112,114,104,104,92,108,87,88,112,116,96,96,108,116,68,112,112,112,76,84,84,85,83,85,112,114,110,111,88,89,79,87}},
{"CDLTRISTAR",0,100,13,{112,128,76,92,80,108,78,92,108,108,106,108,96,98,88,92,112,128,72,88,112,114,104,104,92,108,87,88,112,116,96,96,108,116,68,112,112,112,76,84,88,89,88,89,80,80,80,80,88,93,86,89}},
{"CDLTRISTAR",0,100,13,{112,128,76,92,80,108,78,92,108,108,106,108,96,98,88,92,112,128,72,88,112,114,104,104,92,108,87,88,112,116,96,96,108,116,68,112,112,112,76,84,96,101,96,97,84,85,83,84,96,99,94,97}},
{"CDLTRISTAR",1,-100,4,{96,104,96,104,104,104,103,103,112,116,111,111,88,92,86,88}},
{"CDLTRISTAR",1,-100,4,{96,104,96,104,84,85,80,85,108,109,106,109,96,97,96,97}},
{"CDLTRISTAR",1,100,4,{96,104,96,104,104,108,103,103,88,89,87,89,96,104,94,96}},
{"CDLTRISTAR",1,100,4,{96,104,96,104,108,108,107,107,104,108,103,103,104,105,104,104}},
{"CDLTRISTAR",2,-100,5,{84,104,68,104,88,110,88,108,84,87,83,85,100,102,99,99,84,88,83,83}},
{"CDLTRISTAR",2,-100,5,{84,104,68,104,88,110,88,108,88,88,87,88,100,101,99,100,92,92,87,91}},
{"CDLTRISTAR",2,100,5,{84,104,68,104,88,110,88,108,108,109,104,109,80,82,79,79,108,116,108,108}},
{"CDLTRISTAR",2,100,5,{84,104,68,104,88,110,88,108,96,97,96,97,84,86,82,83,88,90,87,87}},
{"CDLTRISTAR",3,-100,3,{80,88,79,79,100,101,96,101,80,81,78,81}},
{"CDLTRISTAR",3,-100,3,{96,99,88,97,104,112,101,103,84,85,82,85}},
{"CDLTRISTAR",3,100,3,{100,105,96,101,88,96,88,88,104,105,103,105}},
{"CDLTRISTAR",3,100,3,{112,121,110,113,88,88,84,88,112,115,108,113}},
{"CDLTRISTAR",4,-100,5,{100,112,92,110,96,105,88,105,100,105,100,101,108,108,105,107,88,96,83,87}},
{"CDLTRISTAR",4,-100,5,{100,112,92,110,96,105,88,105,88,93,87,89,112,113,104,113,88,92,83,87}},
{"CDLTRISTAR",4,100,5,{100,112,92,110,96,105,88,105,96,96,95,96,88,93,80,89,104,105,104,105}},
{"CDLTRISTAR",4,100,5,{100,112,92,110,96,105,88,105,96,98,94,95,88,88,83,87,88,96,88,88}},
{"CDLTRISTAR",5,-100,4,{104,112,81,89,88,92,86,88,108,108,106,108,88,92,88,88}},
{"CDLTRISTAR",5,-100,4,{104,112,81,89,88,97,84,89,92,92,90,92,84,89,84,85}},
{"CDLTRISTAR",5,100,4,{104,112,81,89,108,108,107,107,92,96,89,91,96,96,96,96}},
{"CDLTRISTAR",5,100,4,{104,112,81,89,108,109,106,109,88,88,79,87,88,93,80,89}},
{"CDLTRISTAR",6,-100,7,{85,97,84,93,115,119,83,83,96,113,95,111,101,105,90,92,80,88,75,79,100,100,95,99,88,89,87,89}},
{"CDLTRISTAR",6,-100,7,{85,97,84,93,115,119,83,83,96,113,95,111,101,105,90,92,88,90,86,89,104,106,104,105,92,93,91,93}},
{"CDLTRISTAR",6,100,7,{85,97,84,93,115,119,83,83,96,113,95,111,101,105,90,92,100,103,99,101,84,85,76,84,96,97,92,97}},
{"CDLTRISTAR",6,100,7,{85,97,84,93,115,119,83,83,96,113,95,111,101,105,90,92,96,98,95,97,84,84,83,83,112,112,103,111}},
{"CDLTRISTAR",7,-100,5,{100,108,87,91,112,116,97,105,100,108,91,99,104,104,95,103,92,92,90,92}},
{"CDLTRISTAR",7,-100,5,{100,108,87,91,112,116,97,105,84,86,79,83,108,110,99,107,104,104,101,103}},
{"CDLTRISTAR",7,100,5,{100,108,87,91,112,116,97,105,108,108,107,107,84,86,75,83,112,112,111,111}},
{"CDLTRISTAR",7,100,5,{100,108,87,91,112,116,97,105,112,112,111,111,80,82,80,81,92,96,91,91}},
{"CDLUNIQUE3RIVER",0,100,13,{100,112,92,112,80,84,79,84,100,102,80,88,104,104,72,88,108,112,68,112,84,100,68,92,80,109,40,108,92,110,76,108,88,112,84,96,112,112,84,84,119,120,94,96,105,109,90,98,108,121,108,117}},
{"CDLUNIQUE3RIVER",0,100,13,{80,112,80,104,112,120,100,108,92,92,48,88,108,110,76,80,84,105,76,104,104,104,40,80,104,105,96,96,80,97,80,96,96,104,95,96,84,92,64,80,104,104,88,89,100,100,82,90,104,115,96,114}},
{"CDLUNIQUE3RIVER",1,100,4,{103,109,102,105,112,152,86,88,108,112,56,96,84,85,83,84}},
{"CDLUNIQUE3RIVER",1,100,4,{84,84,75,83,100,100,89,89,100,102,87,91,96,106,88,104}},
{"CDLUNIQUE3RIVER",2,100,5,{92,112,52,112,100,108,52,92,108,148,87,88,104,105,80,96,104,106,96,104}},
{"CDLUNIQUE3RIVER",2,100,5,{92,112,52,112,100,108,52,92,112,120,88,88,112,112,52,92,92,96,76,96}},
{"CDLUNIQUE3RIVER",3,100,3,{108,110,76,80,100,108,68,84,96,116,56,100}},
{"CDLUNIQUE3RIVER",3,100,3,{96,100,80,80,96,96,75,83,80,96,64,92}},
{"CDLUNIQUE3RIVER",4,100,6,{108,108,44,84,112,112,60,100,112,112,92,108,112,112,78,80,92,92,72,88,96,104,80,96}},
{"CDLUNIQUE3RIVER",4,100,6,{88,136,86,96,104,116,103,108,84,100,84,84,112,112,84,84,108,116,80,96,88,96,48,96}},
{"CDLUNIQUE3RIVER",5,100,6,{100,115,96,113,104,108,95,95,96,97,72,80,96,97,80,82,96,104,79,83,96,106,92,104}},
{"CDLUNIQUE3RIVER",5,100,6,{104,104,87,89,97,105,84,84,93,115,89,114,104,120,84,84,104,104,80,88,96,108,96,108}},
{"CDLUNIQUE3RIVER",6,100,7,{100,101,87,88,84,97,80,96,104,109,96,108,88,108,72,104,110,110,80,80,90,90,75,83,104,112,88,104}},
{"CDLUNIQUE3RIVER",6,100,7,{112,152,80,80,84,109,76,108,112,114,84,100,108,108,100,100,96,96,81,82,96,97,77,85,100,113,100,109}},
{"CDLUNIQUE3RIVER",7,100,5,{104,104,93,93,96,109,95,109,112,120,92,96,108,112,64,104,88,97,86,96}},
{"CDLUNIQUE3RIVER",7,100,5,{112,116,99,100,80,101,80,100,104,106,87,89,100,102,84,92,100,109,100,109}},
{"CDLUPSIDEGAP2CROWS",0,-100,13,{100,110,100,108,104,120,103,116,104,114,103,114,104,104,85,89,96,112,96,104,104,118,103,117,96,96,88,88,100,111,99,110,104,113,104,112,104,113,104,113,81,96,81,95,115,116,106,110,118,119,104,108}},
{"CDLUPSIDEGAP2CROWS",0,-100,13,{96,109,95,108,96,136,92,92,80,116,72,108,96,136,92,96,92,97,84,96,84,132,80,92,92,93,64,80,104,112,95,96,80,85,80,84,112,113,84,88,80,96,78,94,107,107,98,102,108,112,93,97}},
{"CDLUPSIDEGAP2CROWS",1,-100,4,{108,108,104,108,92,93,92,93,100,100,91,99,104,112,93,95}},
{"CDLUPSIDEGAP2CROWS",1,-100,4,{88,92,88,92,80,91,79,87,113,115,112,112,115,115,81,89}},
{"CDLUPSIDEGAP2CROWS",2,-100,5,{82,99,78,97,109,113,105,109,81,89,79,89,104,104,95,103,109,113,92,100}},
{"CDLUPSIDEGAP2CROWS",2,-100,5,{92,97,90,93,104,108,95,103,84,93,84,91,109,109,105,105,117,117,101,103}},
{"CDLUPSIDEGAP2CROWS",3,-100,3,{81,87,81,86,113,117,104,108,115,115,89,89}},
{"CDLUPSIDEGAP2CROWS",3,-100,3,{90,100,89,100,108,109,105,107,112,113,104,104}},
{"CDLUPSIDEGAP2CROWS",4,-100,6,{80,81,72,81,108,108,99,107,84,84,82,83,89,114,85,106,113,114,103,111,114,122,106,107}},
{"CDLUPSIDEGAP2CROWS",4,-100,6,{96,100,74,82,100,113,100,109,100,108,83,91,80,105,76,97,101,105,96,100,103,111,94,98}},
{"CDLUPSIDEGAP2CROWS",5,-100,6,{100,100,97,99,84,88,80,84,88,92,85,87,80,101,80,93,104,112,93,101,107,109,100,100}},
{"CDLUPSIDEGAP2CROWS",5,-100,6,{92,97,88,93,108,111,100,109,108,108,106,107,86,97,78,93,100,108,94,98,116,117,92,96}},
{"CDLUPSIDEGAP2CROWS",6,-100,7,{112,114,80,84,112,152,96,100,80,97,80,96,108,108,64,104,81,87,80,87,117,117,114,114,118,126,105,109}},
{"CDLUPSIDEGAP2CROWS",6,-100,7,{91,106,89,105,113,114,101,105,116,120,93,94,105,106,104,106,94,103,86,101,114,114,108,110,116,117,96,104}},
{"CDLUPSIDEGAP2CROWS",7,-100,5,{112,114,112,112,88,97,88,89,87,102,87,100,113,115,110,110,114,122,95,103}},
{"CDLUPSIDEGAP2CROWS",7,-100,5,{84,92,78,80,92,116,92,112,81,95,81,94,108,112,99,100,110,112,95,95}},
{"CDLXSIDEGAP3METHODS",0,-100,3,{113,115,106,106,89,89,73,81,82,110,81,110}},
{"CDLXSIDEGAP3METHODS",0,-100,3,{119,127,111,111,96,104,89,89,94,120,94,116}},
{"CDLXSIDEGAP3METHODS",0,100,3,{80,88,80,88,94,114,86,114,113,113,79,81}},
{"CDLXSIDEGAP3METHODS",0,100,3,{88,102,88,100,112,123,110,119,115,119,91,93}},
{"CDLXSIDEGAP3METHODS",1,-100,3,{112,112,88,92,91,93,81,82,89,105,81,103}},
{"CDLXSIDEGAP3METHODS",1,-100,3,{114,122,88,90,89,93,84,85,87,110,87,106}},
{"CDLXSIDEGAP3METHODS",1,100,3,{83,101,83,97,101,116,99,116,110,110,80,88}},
{"CDLXSIDEGAP3METHODS",1,100,3,{86,90,86,90,93,121,89,113,109,117,84,88}},
{"CDLXSIDEGAP3METHODS",2,-100,3,{118,118,103,103,101,109,87,95,99,115,97,115}},
{"CDLXSIDEGAP3METHODS",2,-100,3,{119,119,112,112,102,110,88,90,97,117,97,117}},
{"CDLXSIDEGAP3METHODS",2,100,3,{80,90,80,88,104,113,104,112,108,108,76,84}},
{"CDLXSIDEGAP3METHODS",2,100,3,{81,91,73,90,93,118,85,114,108,108,88,88}},
{"CDLXSIDEGAP3METHODS",3,-100,3,{108,112,105,105,99,103,91,91,95,106,91,106}},
{"CDLXSIDEGAP3METHODS",3,-100,3,{117,117,104,112,111,119,93,97,101,115,101,114}},
{"CDLXSIDEGAP3METHODS",3,100,3,{80,91,80,91,110,126,109,118,116,120,83,87}},
{"CDLXSIDEGAP3METHODS",3,100,3,{88,99,88,99,113,122,112,118,116,124,98,98}},
{"CDLXSIDEGAP3METHODS",4,-100,3,{108,108,92,92,88,92,76,80,84,104,44,104}},
{"CDLXSIDEGAP3METHODS",4,-100,3,{109,113,96,96,89,97,83,83,85,100,77,99}},
{"CDLXSIDEGAP3METHODS",4,100,3,{80,104,72,96,99,115,98,113,103,107,94,94}},
{"CDLXSIDEGAP3METHODS",4,100,3,{80,97,78,96,100,116,99,108,104,105,76,84}},
{"CDLXSIDEGAP3METHODS",5,-100,3,{108,108,103,104,100,104,82,86,96,108,96,106}},
{"CDLXSIDEGAP3METHODS",5,-100,3,{118,120,106,114,99,103,72,80,85,119,85,115}},
{"CDLXSIDEGAP3METHODS",5,100,3,{100,104,98,104,106,111,106,111,108,116,97,101}},
{"CDLXSIDEGAP3METHODS",5,100,3,{80,102,76,102,105,118,104,116,112,120,88,92}},
{"CDLXSIDEGAP3METHODS",6,-100,3,{112,120,94,96,92,92,80,80,88,108,87,104}},
{"CDLXSIDEGAP3METHODS",6,-100,3,{115,116,95,99,96,96,88,88,92,112,88,108}},
{"CDLXSIDEGAP3METHODS",6,100,3,{80,132,64,92,96,112,94,108,104,120,84,84}},
{"CDLXSIDEGAP3METHODS",6,100,3,{89,97,85,93,95,113,87,113,103,103,89,91}},
{"CDLXSIDEGAP3METHODS",7,-100,3,{103,103,99,99,96,100,84,84,87,104,87,100}},
{"CDLXSIDEGAP3METHODS",7,-100,3,{116,124,103,105,91,93,86,86,88,119,88,111}},
{"CDLXSIDEGAP3METHODS",7,100,3,{80,91,76,90,91,118,83,118,98,100,82,82}},
{"CDLXSIDEGAP3METHODS",7,100,3,{82,103,82,101,103,116,103,116,112,120,83,84}},
