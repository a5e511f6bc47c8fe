------------------------------- MODULE Angles --------------------------------
(* Atan[y + 1][x + 1]: angle of (x, y), in 1e-5 radians, 0 <= x, y <= 32.      *)
Atan == <<
<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
<<157080, 78540, 46365, 32175, 24498, 19740, 16515, 14190, 12435, 11066, 9967, 9066, 8314, 7677, 7131, 6657, 6242, 5876, 5550, 5258, 4996, 4758, 4542, 4345, 4164, 3998, 3844, 3702, 3570, 3447, 3332, 3225, 3124>>,
<<157080, 110715, 78540, 58800, 46365, 38051, 32175, 27830, 24498, 21867, 19740, 17985, 16515, 15265, 14190, 13255, 12435, 11711, 11066, 10488, 9967, 9495, 9066, 8674, 8314, 7983, 7677, 7394, 7131, 6886, 6657, 6443, 6242>>,
<<157080, 124905, 98279, 78540, 64350, 54042, 46365, 40489, 35877, 32175, 29146, 26625, 24498, 22680, 21109, 19740, 18535, 17467, 16515, 15660, 14889, 14190, 13553, 12970, 12435, 11943, 11488, 11066, 10674, 10308, 9967, 9647, 9348>>,
<<157080, 132582, 110715, 92730, 78540, 67474, 58800, 51915, 46365, 41822, 38051, 34877, 32175, 29850, 27830, 26060, 24498, 23109, 21867, 20750, 19740, 18822, 17985, 17219, 16515, 15866, 15265, 14708, 14190, 13707, 13255, 12832, 12435>>,
<<157080, 137340, 119029, 103038, 89606, 78540, 69474, 62025, 55860, 50710, 46365, 42663, 39479, 36717, 34302, 32175, 30288, 28605, 27095, 25732, 24498, 23374, 22348, 21406, 20540, 19740, 18999, 18311, 17671, 17074, 16515, 15991, 15500>>,
<<157080, 140565, 124905, 110715, 98279, 87606, 78540, 70863, 64350, 58800, 54042, 49935, 46365, 43241, 40489, 38051, 35877, 33929, 32175, 30588, 29146, 27830, 26625, 25518, 24498, 23554, 22680, 21867, 21109, 20402, 19740, 19118, 18535>>,
<<157080, 142890, 129250, 116590, 105165, 95055, 86217, 78540, 71883, 66104, 61073, 56673, 52807, 49394, 46365, 43663, 41241, 39061, 37089, 35299, 33667, 32175, 30805, 29544, 28379, 27301, 26299, 25367, 24498, 23685, 22923, 22208, 21536>>,
<<157080, 144644, 132582, 121203, 110715, 101220, 92730, 85197, 78540, 72664, 67474, 62880, 58800, 55165, 51915, 48996, 46365, 43984, 41822, 39852, 38051, 36398, 34877, 33474, 32175, 30970, 29850, 28806, 27830, 26917, 26060, 25255, 24498>>,
<<157080, 146014, 135213, 124905, 115257, 106370, 98279, 90975, 84415, 78540, 73282, 68573, 64350, 60554, 57134, 54042, 51239, 48690, 46365, 44237, 42285, 40489, 38832, 37299, 35877, 34556, 33324, 32175, 31100, 30092, 29146, 28255, 27417>>,
<<157080, 147113, 137340, 127934, 119029, 110715, 103038, 96007, 89606, 83798, 78540, 73782, 69474, 65570, 62025, 58800, 55860, 53172, 50710, 48448, 46365, 44442, 42663, 41013, 39479, 38051, 36717, 35471, 34302, 33206, 32175, 31204, 30288>>,
<<157080, 148014, 139094, 130454, 122203, 114417, 107145, 100407, 94200, 88507, 83298, 78540, 74195, 70226, 66597, 63275, 60229, 57430, 54855, 52480, 50284, 48251, 46365, 44611, 42976, 41451, 40024, 38688, 37433, 36254, 35144, 34098, 33110>>,
<<157080, 148766, 140565, 132582, 124905, 117601, 110715, 104272, 98279, 92730, 87606, 82885, 78540, 74542, 70863, 67474, 64350, 61466, 58800, 56332, 54042, 51915, 49935, 48089, 46365, 44752, 43241, 41822, 40489, 39234, 38051, 36933, 35877>>,
<<157080, 149402, 141815, 134400, 127230, 120362, 113839, 107685, 101914, 96525, 91510, 86854, 82538, 78540, 74838, 71409, 68232, 65285, 62549, 60005, 57638, 55431, 53371, 51445, 49642, 47952, 46365, 44872, 43467, 42142, 40891, 39708, 38588>>,
<<157080, 149949, 142890, 135970, 129250, 122777, 116590, 110715, 105165, 99946, 95055, 90483, 86217, 82242, 78540, 75093, 71883, 68892, 66104, 63503, 61073, 58800, 56673, 54679, 52807, 51049, 49394, 47835, 46365, 44976, 43663, 42419, 41241>>,
<<157080, 150423, 143824, 137340, 131019, 124905, 119029, 113417, 108084, 103038, 98279, 93805, 89606, 85671, 81987, 78540, 75315, 72298, 69474, 66829, 64350, 62025, 59842, 57790, 55860, 54042, 52328, 50710, 49181, 47735, 46365, 45066, 43834>>,
<<157080, 150838, 144644, 138545, 132582, 126791, 121203, 115839, 110715, 105841, 101220, 96851, 92730, 88848, 85197, 81765, 78540, 75510, 72664, 69989, 67474, 65108, 62880, 60780, 58800, 56931, 55165, 53496, 51915, 50417, 48996, 47647, 46365>>,
<<157080, 151204, 145369, 139612, 133971, 128474, 123150, 118019, 113095, 108390, 103907, 99649, 95613, 91795, 88187, 84782, 81569, 78540, 75683, 72990, 70449, 68052, 65789, 63651, 61630, 59718, 57907, 56192, 54566, 53022, 51555, 50160, 48833>>,
<<157080, 151530, 146014, 140565, 135213, 129985, 124905, 119991, 115257, 110715, 106370, 102225, 98279, 94531, 90975, 87606, 84415, 81396, 78540, 75838, 73282, 70863, 68573, 66405, 64350, 62402, 60554, 58800, 57134, 55549, 54042, 52607, 51239>>,
<<157080, 151821, 146592, 141419, 136330, 131347, 126492, 121781, 117227, 112842, 108632, 104600, 100748, 97075, 93577, 90251, 87090, 84090, 81242, 78540, 75976, 73544, 71236, 69045, 66964, 64987, 63108, 61321, 59620, 58000, 56457, 54985, 53581>>,
<<157080, 152084, 147113, 142191, 137340, 132582, 127934, 123412, 119029, 114794, 110715, 106795, 103038, 99442, 96007, 92730, 89606, 86630, 83798, 81103, 78540, 76101, 73782, 71574, 69474, 67474, 65570, 63755, 62025, 60375, 58800, 57297, 55860>>,
<<157080, 152321, 147584, 142890, 138257, 133705, 129250, 124905, 120682, 116590, 112638, 108828, 105165, 101649, 98279, 95055, 91972, 89028, 86217, 83536, 80978, 78540, 76215, 73997, 71883, 69866, 67941, 66104, 64350, 62674, 61073, 59541, 58076>>,
<<157080, 152537, 148014, 143527, 139094, 134732, 130454, 126274, 122203, 118248, 114417, 110715, 107145, 103709, 100407, 97238, 94200, 91291, 88507, 85844, 83298, 80865, 78540, 76318, 74195, 72165, 70226, 68371, 66597, 64900, 63275, 61719, 60229>>,
<<157080, 152735, 148406, 144109, 139861, 135674, 131561, 127536, 123606, 119781, 116067, 112469, 108991, 105635, 102401, 99289, 96299, 93429, 90675, 88035, 85505, 83082, 80762, 78540, 76412, 74376, 72425, 70557, 68767, 67052, 65408, 63832, 62320>>,
<<157080, 152915, 148766, 144644, 140565, 136540, 132582, 128700, 124905, 121203, 117601, 114103, 110715, 107437, 104272, 101220, 98279, 95450, 92730, 90116, 87606, 85197, 82885, 80667, 78540, 76499, 74542, 72664, 70863, 69134, 67474, 65881, 64350>>,
<<157080, 153082, 149097, 145137, 141214, 137340, 133525, 129779, 126109, 122524, 119029, 115629, 112328, 109128, 106031, 103038, 100148, 97362, 94677, 92093, 89606, 87214, 84914, 82704, 80580, 78540, 76579, 74696, 72885, 71146, 69474, 67866, 66320>>,
<<157080, 153235, 149402, 145592, 141815, 138081, 134400, 130780, 127230, 123755, 120362, 117056, 113839, 110715, 107685, 104752, 101914, 99172, 96525, 93972, 91510, 89138, 86854, 84655, 82538, 80500, 78540, 76653, 74838, 73091, 71409, 69790, 68232>>,
<<157080, 153378, 149686, 146014, 142372, 138769, 135213, 131712, 128274, 124905, 121609, 118392, 115257, 112207, 109244, 106370, 103584, 100887, 98279, 95759, 93325, 90975, 88709, 86523, 84415, 82384, 80426, 78540, 76722, 74970, 73282, 71654, 70085>>,
<<157080, 153510, 149949, 146406, 142890, 139409, 135970, 132582, 129250, 125980, 122777, 119646, 116590, 113613, 110715, 107899, 105165, 102514, 99946, 97460, 95055, 92730, 90483, 88313, 86217, 84194, 82242, 80358, 78540, 76786, 75093, 73459, 71883>>,
<<157080, 153633, 150194, 146771, 143373, 140006, 136678, 133395, 130163, 126988, 123874, 120825, 117846, 114938, 112104, 109345, 106663, 104058, 101530, 99079, 96705, 94405, 92180, 90027, 87946, 85934, 83989, 82110, 80294, 78540, 76845, 75208, 73626>>,
<<157080, 153748, 150423, 147113, 143824, 140565, 137340, 134156, 131019, 127934, 124905, 121935, 119029, 116189, 113417, 110715, 108084, 105525, 103038, 100623, 98279, 96007, 93805, 91671, 89606, 87606, 85671, 83798, 81987, 80235, 78540, 76901, 75315>>,
<<157080, 153855, 150637, 147432, 144247, 141088, 137961, 134871, 131824, 128824, 125875, 122982, 120146, 117372, 114660, 112014, 109433, 106919, 104473, 102094, 99783, 97539, 95360, 93248, 91199, 89213, 87289, 85425, 83620, 81872, 80179, 78540, 76953>>,
<<157080, 153956, 150838, 147732, 144644, 141580, 138545, 135544, 132582, 129663, 126791, 123970, 121203, 118491, 115839, 113246, 110715, 108246, 105841, 103499, 101220, 99004, 96851, 94760, 92730, 90759, 88848, 86994, 85197, 83454, 81765, 80127, 78540>>>>
=============================================================================
