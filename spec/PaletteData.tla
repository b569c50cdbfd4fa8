---------------------------- MODULE PaletteData -----------------------------
(* CIEDE2000 difference of any two Apple II colours, in hundredths, in each    *)
(* palette; colours in the order of Picture!HNames.  Computed by              *)
(* tools/palettes.py.                                                        *)
NTSCDiff ==
  <<<<0, 3531, 3767, 5012, 3859, 3917, 5584, 6440, 3145, 5393, 3917, 6544, 6638, 7803, 8619, 10000>>,
    <<3531, 0, 2279, 2191, 7633, 3200, 6048, 4554, 5382, 4529, 3200, 3672, 9554, 8307, 9805, 5932>>,
    <<3767, 2279, 0, 2218, 6021, 3524, 4001, 3962, 5953, 5511, 3524, 4320, 7441, 8781, 7451, 6168>>,
    <<5012, 2191, 2218, 0, 8696, 3154, 4199, 2754, 6445, 4738, 3154, 2019, 10109, 8408, 6350, 4650>>,
    <<3859, 7633, 6021, 8696, 0, 2802, 5532, 6015, 2314, 6001, 2802, 8218, 2897, 3942, 3953, 5184>>,
    <<3917, 3200, 3524, 3154, 2802, 0, 2439, 2805, 2788, 2990, 0, 3164, 3418, 3673, 3904, 3395>>,
    <<5584, 6048, 4001, 4199, 5532, 2439, 0, 2052, 5702, 5618, 2439, 5087, 5596, 5897, 5060, 3253>>,
    <<6440, 4554, 3962, 2754, 6015, 2805, 2052, 0, 6123, 4641, 2805, 2537, 5723, 6086, 5145, 2900>>,
    <<3145, 5382, 5953, 6445, 2314, 2788, 5702, 6123, 0, 3793, 2788, 6624, 4657, 4507, 5609, 5734>>,
    <<5393, 4529, 5511, 4738, 6001, 2990, 5618, 4641, 3793, 0, 2990, 4107, 6859, 4601, 7210, 4101>>,
    <<3917, 3200, 3524, 3154, 2802, 0, 2439, 2805, 2788, 2990, 0, 3164, 3418, 3673, 3904, 3395>>,
    <<6544, 3672, 4320, 2019, 8218, 3164, 5087, 2537, 6624, 4107, 3164, 0, 8958, 7268, 8802, 3299>>,
    <<6638, 9554, 7441, 10109, 2897, 3418, 5596, 5723, 4657, 6859, 3418, 8958, 0, 2366, 1402, 3569>>,
    <<7803, 8307, 8781, 8408, 3942, 3673, 5897, 6086, 4507, 4601, 3673, 7268, 2366, 0, 2760, 3080>>,
    <<8619, 9805, 7451, 6350, 3953, 3904, 5060, 5145, 5609, 7210, 3904, 8802, 1402, 2760, 0, 2934>>,
    <<10000, 5932, 6168, 4650, 5184, 3395, 3253, 2900, 5734, 4101, 3395, 3299, 3569, 3080, 2934, 0>>>>
IIGSDiff ==
  <<<<0, 4409, 3170, 4981, 4060, 2452, 4062, 6057, 3590, 5723, 5712, 6620, 7354, 10120, 8819, 10000>>,
    <<4409, 0, 4571, 3265, 7335, 3035, 4311, 5166, 2647, 2444, 3570, 2605, 8746, 7155, 8907, 4926>>,
    <<3170, 4571, 0, 3317, 6128, 3313, 1496, 5194, 5291, 6507, 5704, 6574, 8593, 11023, 8933, 8038>>,
    <<4981, 3265, 3317, 0, 9218, 3469, 2446, 4198, 5047, 4976, 3447, 3786, 10596, 9297, 6433, 4625>>,
    <<4060, 7335, 6128, 9218, 0, 2772, 6101, 5969, 3866, 6205, 3659, 6327, 3095, 4667, 3845, 5103>>,
    <<2452, 3035, 3313, 3469, 2772, 0, 3283, 3949, 2222, 3960, 3270, 4268, 4921, 5783, 5320, 5055>>,
    <<4062, 4311, 1496, 2446, 6101, 3283, 0, 3908, 5266, 6066, 4696, 5470, 7659, 10050, 7337, 6096>>,
    <<6057, 5166, 5194, 4198, 5969, 3949, 3908, 0, 5140, 5080, 2326, 4178, 6039, 7117, 5061, 3119>>,
    <<3590, 2647, 5291, 5047, 3866, 2222, 5266, 5140, 0, 2618, 3472, 3389, 5494, 5220, 6007, 5037>>,
    <<5723, 2444, 6507, 4976, 6205, 3960, 6066, 5080, 2618, 0, 3036, 1834, 6780, 5021, 6941, 3938>>,
    <<5712, 3570, 5704, 3447, 3659, 3270, 4696, 2326, 3472, 3036, 0, 2398, 3194, 3560, 3169, 2002>>,
    <<6620, 2605, 6574, 3786, 6327, 4268, 5470, 4178, 3389, 1834, 2398, 0, 6529, 4936, 6548, 2936>>,
    <<7354, 8746, 8593, 10596, 3095, 4921, 7659, 6039, 5494, 6780, 3194, 6529, 0, 2554, 1372, 3465>>,
    <<10120, 7155, 11023, 9297, 4667, 5783, 10050, 7117, 5220, 5021, 3560, 4936, 2554, 0, 2943, 3052>>,
    <<8819, 8907, 8933, 6433, 3845, 5320, 7337, 5061, 6007, 6941, 3169, 6548, 1372, 2943, 0, 2948>>,
    <<10000, 4926, 8038, 4625, 5103, 5055, 6096, 3119, 5037, 3938, 2002, 2936, 3465, 3052, 2948, 0>>>>
============================================================================
