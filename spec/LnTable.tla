------------------------------ MODULE LnTable ------------------------------
(* natural logarithms of 1..600 in units of 10^-5 *)
EXTENDS Integers, Sequences
LN == <<
  0, 69315, 109861, 138629, 160944, 179176, 194591, 207944, 219722, 230259, 239790, 248491, 256495, 263906,
  270805, 277259, 283321, 289037, 294444, 299573, 304452, 309104, 313549, 317805, 321888, 325810, 329584,
  333220, 336730, 340120, 343399, 346574, 349651, 352636, 355535, 358352, 361092, 363759, 366356, 368888,
  371357, 373767, 376120, 378419, 380666, 382864, 385015, 387120, 389182, 391202, 393183, 395124, 397029,
  398898, 400733, 402535, 404305, 406044, 407754, 409434, 411087, 412713, 414313, 415888, 417439, 418965,
  420469, 421951, 423411, 424850, 426268, 427667, 429046, 430407, 431749, 433073, 434381, 435671, 436945,
  438203, 439445, 440672, 441884, 443082, 444265, 445435, 446591, 447734, 448864, 449981, 451086, 452179,
  453260, 454329, 455388, 456435, 457471, 458497, 459512, 460517, 461512, 462497, 463473, 464439, 465396,
  466344, 467283, 468213, 469135, 470048, 470953, 471850, 472739, 473620, 474493, 475359, 476217, 477068,
  477912, 478749, 479579, 480402, 481218, 482028, 482831, 483628, 484419, 485203, 485981, 486753, 487520,
  488280, 489035, 489784, 490527, 491265, 491998, 492725, 493447, 494164, 494876, 495583, 496284, 496981,
  497673, 498361, 499043, 499721, 500395, 501064, 501728, 502388, 503044, 503695, 504343, 504986, 505625,
  506260, 506890, 507517, 508140, 508760, 509375, 509987, 510595, 511199, 511799, 512396, 512990, 513580,
  514166, 514749, 515329, 515906, 516479, 517048, 517615, 518178, 518739, 519296, 519850, 520401, 520949,
  521494, 522036, 522575, 523111, 523644, 524175, 524702, 525227, 525750, 526269, 526786, 527300, 527811,
  528320, 528827, 529330, 529832, 530330, 530827, 531321, 531812, 532301, 532788, 533272, 533754, 534233,
  534711, 535186, 535659, 536129, 536598, 537064, 537528, 537990, 538450, 538907, 539363, 539816, 540268,
  540717, 541165, 541610, 542053, 542495, 542935, 543372, 543808, 544242, 544674, 545104, 545532, 545959,
  546383, 546806, 547227, 547646, 548064, 548480, 548894, 549306, 549717, 550126, 550533, 550939, 551343,
  551745, 552146, 552545, 552943, 553339, 553733, 554126, 554518, 554908, 555296, 555683, 556068, 556452,
  556834, 557215, 557595, 557973, 558350, 558725, 559099, 559471, 559842, 560212, 560580, 560947, 561313,
  561677, 562040, 562402, 562762, 563121, 563479, 563835, 564191, 564545, 564897, 565249, 565599, 565948,
  566296, 566643, 566988, 567332, 567675, 568017, 568358, 568698, 569036, 569373, 569709, 570044, 570378,
  570711, 571043, 571373, 571703, 572031, 572359, 572685, 573010, 573334, 573657, 573979, 574300, 574620,
  574939, 575257, 575574, 575890, 576205, 576519, 576832, 577144, 577455, 577765, 578074, 578383, 578690,
  578996, 579301, 579606, 579909, 580212, 580513, 580814, 581114, 581413, 581711, 582008, 582305, 582600,
  582895, 583188, 583481, 583773, 584064, 584354, 584644, 584932, 585220, 585507, 585793, 586079, 586363,
  586647, 586930, 587212, 587493, 587774, 588053, 588332, 588610, 588888, 589164, 589440, 589715, 589990,
  590263, 590536, 590808, 591080, 591350, 591620, 591889, 592158, 592426, 592693, 592959, 593225, 593489,
  593754, 594017, 594280, 594542, 594803, 595064, 595324, 595584, 595842, 596101, 596358, 596615, 596871,
  597126, 597381, 597635, 597889, 598141, 598394, 598645, 598896, 599146, 599396, 599645, 599894, 600141,
  600389, 600635, 600881, 601127, 601372, 601616, 601859, 602102, 602345, 602587, 602828, 603069, 603309,
  603548, 603787, 604025, 604263, 604501, 604737, 604973, 605209, 605444, 605678, 605912, 606146, 606379,
  606611, 606843, 607074, 607304, 607535, 607764, 607993, 608222, 608450, 608677, 608904, 609131, 609357,
  609582, 609807, 610032, 610256, 610479, 610702, 610925, 611147, 611368, 611589, 611810, 612030, 612249,
  612468, 612687, 612905, 613123, 613340, 613556, 613773, 613988, 614204, 614419, 614633, 614847, 615060,
  615273, 615486, 615698, 615910, 616121, 616331, 616542, 616752, 616961, 617170, 617379, 617587, 617794,
  618002, 618208, 618415, 618621, 618826, 619032, 619236, 619441, 619644, 619848, 620051, 620254, 620456,
  620658, 620859, 621060, 621261, 621461, 621661, 621860, 622059, 622258, 622456, 622654, 622851, 623048,
  623245, 623441, 623637, 623832, 624028, 624222, 624417, 624611, 624804, 624998, 625190, 625383, 625575,
  625767, 625958, 626149, 626340, 626530, 626720, 626910, 627099, 627288, 627476, 627664, 627852, 628040,
  628227, 628413, 628600, 628786, 628972, 629157, 629342, 629527, 629711, 629895, 630079, 630262, 630445,
  630628, 630810, 630992, 631173, 631355, 631536, 631716, 631897, 632077, 632257, 632436, 632615, 632794,
  632972, 633150, 633328, 633505, 633683, 633859, 634036, 634212, 634388, 634564, 634739, 634914, 635089,
  635263, 635437, 635611, 635784, 635957, 636130, 636303, 636475, 636647, 636819, 636990, 637161, 637332,
  637502, 637673, 637843, 638012, 638182, 638351, 638519, 638688, 638856, 639024, 639192, 639359, 639526,
  639693 >>
=============================================================================
