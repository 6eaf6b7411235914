pub const ZS: [[u64; NUM_WINDOWS + 1]; BASES] = [
    [43655, 109180, 61855, 22792, 14323, 49340, 44106, 6761, 47940, 79582, 3365, 51667, 23557, 71715, 72411, 81323, 42306, 170594, 153399, 123967, 45210, 33828, 35916, 41584, 6170, 11193, 33522, 172258, 14241, 49210, 116579, 9614, 3395, 72959, 19163, 65943, 73370, 34409, 64584, 105594, 55203, 153173, 1684, 45351, 94119, 122571, 34870, 23350, 216891, 6656, 38186, 119457, 14327, 48142, 8340, 38666, 196327, 39318, 236217, 45314, 25824, 201273, 246768, 146377, 20458, 126526, 472656, 207233, 182140, 28692, 68225, 53602, 159006, 140116, 88050, 45619, 58608, 177089, 113359, 36185, 195431, 2923, 74622, 20536, 4210, 47381],
    [27989, 128698, 5519, 53446, 7951, 45725, 513398, 11555, 85423, 434825, 161691, 139944, 66322, 42036, 75, 89332, 65794, 300367, 121693, 167299, 92385, 23410, 2938, 89289, 64335, 123588, 84724, 31998, 38662, 101935, 49451, 7022, 70316, 155437, 69273, 28862, 22811, 8373, 96686, 15648, 10860, 32966, 48769, 158096, 131368, 81108, 28902, 50490, 144354, 21050, 22330, 7088, 227496, 21328, 3249, 76880, 84851, 17869, 18417, 105582, 41101, 30235, 1019, 6927, 21421, 98774, 42572, 45374, 7999, 16859, 80266, 156621, 16131, 11430, 55742, 253168, 44938, 100130, 114309, 336675, 107322, 25612, 170162, 51305, 31477, 177943],
];
