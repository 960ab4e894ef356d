// Code tables of ISO 32000 annex D (compared with cp1252, mac_roman, x-MacSymbol and x-MacDingbat); 0 where no character is assigned
#ifndef ENCTABLES_H
#define ENCTABLES_H
static const char32_t tblWinAnsi[256] = {
    0x0,0x1,0x2,0x3,0x4,0x5,0x6,0x7,0x8,0x9,0xa,0xb,0xc,0xd,0xe,0xf,
    0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,
    0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,
    0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,
    0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,
    0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,
    0x60,0x61,0x62,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x6b,0x6c,0x6d,0x6e,0x6f,
    0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x7b,0x7c,0x7d,0x7e,0x7f,
    0x20ac,0x0,0x201a,0x192,0x201e,0x2026,0x2020,0x2021,0x2c6,0x2030,0x160,0x2039,0x152,0x0,0x17d,0x0,
    0x0,0x2018,0x2019,0x201c,0x201d,0x2022,0x2013,0x2014,0x2dc,0x2122,0x161,0x203a,0x153,0x0,0x17e,0x178,
    0xa0,0xa1,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xab,0xac,0xad,0xae,0xaf,
    0xb0,0xb1,0xb2,0xb3,0xb4,0xb5,0xb6,0xb7,0xb8,0xb9,0xba,0xbb,0xbc,0xbd,0xbe,0xbf,
    0xc0,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xcb,0xcc,0xcd,0xce,0xcf,
    0xd0,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,0xdb,0xdc,0xdd,0xde,0xdf,
    0xe0,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xee,0xef,
    0xf0,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa,0xfb,0xfc,0xfd,0xfe,0xff,
};
static const char32_t tblMacRoman[256] = {
    0x0,0x1,0x2,0x3,0x4,0x5,0x6,0x7,0x8,0x9,0xa,0xb,0xc,0xd,0xe,0xf,
    0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,
    0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,
    0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,
    0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,
    0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,
    0x60,0x61,0x62,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x6b,0x6c,0x6d,0x6e,0x6f,
    0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x7b,0x7c,0x7d,0x7e,0x7f,
    0xc4,0xc5,0xc7,0xc9,0xd1,0xd6,0xdc,0xe1,0xe0,0xe2,0xe4,0xe3,0xe5,0xe7,0xe9,0xe8,
    0xea,0xeb,0xed,0xec,0xee,0xef,0xf1,0xf3,0xf2,0xf4,0xf6,0xf5,0xfa,0xf9,0xfb,0xfc,
    0x2020,0xb0,0xa2,0xa3,0xa7,0x2022,0xb6,0xdf,0xae,0xa9,0x2122,0xb4,0xa8,0x2260,0xc6,0xd8,
    0x221e,0xb1,0x2264,0x2265,0xa5,0xb5,0x2202,0x2211,0x220f,0x3c0,0x222b,0xaa,0xba,0x3a9,0xe6,0xf8,
    0xbf,0xa1,0xac,0x221a,0x192,0x2248,0x2206,0xab,0xbb,0x2026,0xa0,0xc0,0xc3,0xd5,0x152,0x153,
    0x2013,0x2014,0x201c,0x201d,0x2018,0x2019,0xf7,0x25ca,0xff,0x178,0x2044,0xa4,0x2039,0x203a,0xfb01,0xfb02,
    0x2021,0xb7,0x201a,0x201e,0x2030,0xc2,0xca,0xc1,0xcb,0xc8,0xcd,0xce,0xcf,0xcc,0xd3,0xd4,
    0xf8ff,0xd2,0xda,0xdb,0xd9,0x131,0x2c6,0x2dc,0xaf,0x2d8,0x2d9,0x2da,0xb8,0x2dd,0x2db,0x2c7,
};
static const char32_t tblMacExpert[256] = {
    0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
    0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
    0x20,0xf721,0xf6f8,0xf7a2,0xf724,0xf6e4,0xf726,0xf7b4,0x207d,0x207e,0x2025,0x2024,0x2c,0x2d,0x2e,0x2044,
    0xf730,0xf731,0xf732,0xf733,0xf734,0xf735,0xf736,0xf737,0xf738,0xf739,0x3a,0x3b,0x0,0xf6de,0x0,0xf73f,
    0x0,0x0,0x0,0x0,0xf7f0,0x0,0x0,0xbc,0xbd,0xbe,0x215b,0x215c,0x215d,0x215e,0x2153,0x2154,
    0x0,0x0,0x0,0x0,0x0,0x0,0xfb00,0xfb01,0xfb02,0xfb03,0xfb04,0x208d,0x0,0x208e,0xf6f6,0xf6e5,
    0xf760,0xf761,0xf762,0xf763,0xf764,0xf765,0xf766,0xf767,0xf768,0xf769,0xf76a,0xf76b,0xf76c,0xf76d,0xf76e,0xf76f,
    0xf770,0xf771,0xf772,0xf773,0xf774,0xf775,0xf776,0xf777,0xf778,0xf779,0xf77a,0x20a1,0xf6dc,0xf6dd,0xf6fe,0x0,
    0x0,0xf6e9,0xf6e0,0x0,0x0,0x0,0x0,0xf7e1,0xf7e0,0xf7e2,0xf7e4,0xf7e3,0xf7e5,0xf7e7,0xf7e9,0xf7e8,
    0xf7ea,0xf7eb,0xf7ed,0xf7ec,0xf7ee,0xf7ef,0xf7f1,0xf7f3,0xf7f2,0xf7f4,0xf7f6,0xf7f5,0xf7fa,0xf7f9,0xf7fb,0xf7fc,
    0x0,0x2078,0x2084,0x2083,0x2086,0x2088,0x2087,0xf6fd,0x0,0xf6df,0x2082,0x0,0xf7a8,0x0,0xf6f5,0xf6f0,
    0x2085,0x0,0xf6e1,0xf6e7,0xf7fd,0x0,0xf6e3,0x0,0x0,0xf7fe,0x0,0x2089,0x2080,0xf6ff,0xf7e6,0xf7f8,
    0xf7bf,0x2081,0xf6f9,0x0,0x0,0x0,0x0,0x0,0x0,0xf7b8,0x0,0x0,0x0,0x0,0x0,0xf6fa,
    0x2012,0xf6e6,0x0,0x0,0x0,0x0,0xf7a1,0x0,0xf7ff,0x0,0xb9,0xb2,0xb3,0x2074,0x2075,0x2076,
    0x2077,0x2079,0x2070,0x0,0xf6ec,0xf6f1,0xf6f3,0x0,0x0,0xf6ed,0xf6f2,0xf6eb,0x0,0x0,0x0,0x0,
    0x0,0xf6ee,0xf6fb,0xf6f4,0xf7af,0xf6ea,0x207f,0xf6ef,0xf6e2,0xf6e8,0xf6f7,0xf6fc,0x0,0x0,0x0,0x0,
};
static const char32_t tblStandard[256] = {
    0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
    0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
    0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x2019,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,
    0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,
    0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,
    0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,
    0x2018,0x61,0x62,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x6b,0x6c,0x6d,0x6e,0x6f,
    0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x7b,0x7c,0x7d,0x7e,0x0,
    0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
    0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
    0x0,0xa1,0xa2,0xa3,0x2044,0xa5,0x192,0xa7,0xa4,0x27,0x201c,0xab,0x2039,0x203a,0xfb01,0xfb02,
    0x0,0x2013,0x2020,0x2021,0xb7,0x0,0xb6,0x2022,0x201a,0x201e,0x201d,0xbb,0x2026,0x2030,0x0,0xbf,
    0x0,0x60,0xb4,0x2c6,0x2dc,0xaf,0x2d8,0x2d9,0xa8,0x0,0x2da,0xb8,0x0,0x2dd,0x2db,0x2c7,
    0x2014,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
    0x0,0xc6,0x0,0xaa,0x0,0x0,0x0,0x0,0x141,0xd8,0x152,0xba,0x0,0x0,0x0,0x0,
    0x0,0xe6,0x0,0x0,0x0,0x131,0x0,0x0,0x142,0xf8,0x153,0xdf,0x0,0x0,0x0,0x0,
};
static const char32_t tblSymbol[256] = {
    0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
    0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
    0x20,0x21,0x2200,0x23,0x2203,0x25,0x26,0x220b,0x28,0x29,0x2217,0x2b,0x2c,0x2212,0x2e,0x2f,
    0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,
    0x2245,0x391,0x392,0x3a7,0x394,0x395,0x3a6,0x393,0x397,0x399,0x3d1,0x39a,0x39b,0x39c,0x39d,0x39f,
    0x3a0,0x398,0x3a1,0x3a3,0x3a4,0x3a5,0x3c2,0x3a9,0x39e,0x3a8,0x396,0x5b,0x2234,0x5d,0x22a5,0x5f,
    0xf8e5,0x3b1,0x3b2,0x3c7,0x3b4,0x3b5,0x3c6,0x3b3,0x3b7,0x3b9,0x3d5,0x3ba,0x3bb,0x3bc,0x3bd,0x3bf,
    0x3c0,0x3b8,0x3c1,0x3c3,0x3c4,0x3c5,0x3d6,0x3c9,0x3be,0x3c8,0x3b6,0x7b,0x7c,0x7d,0x223c,0x0,
    0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
    0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
    0x20ac,0x3d2,0x2032,0x2264,0x2044,0x221e,0x192,0x2663,0x2666,0x2665,0x2660,0x2194,0x2190,0x2191,0x2192,0x2193,
    0xb0,0xb1,0x2033,0x2265,0xd7,0x221d,0x2202,0x2022,0xf7,0x2260,0x2261,0x2248,0x2026,0xf8e6,0xf8e7,0x21b5,
    0x2135,0x2111,0x211c,0x2118,0x2297,0x2295,0x2205,0x2229,0x222a,0x2283,0x2287,0x2284,0x2282,0x2286,0x2208,0x2209,
    0x2220,0x2207,0xf6da,0xf6d9,0xf6db,0x220f,0x221a,0x22c5,0xac,0x2227,0x2228,0x21d4,0x21d0,0x21d1,0x21d2,0x21d3,
    0x25ca,0x2329,0xf8e8,0xf8e9,0xf8ea,0x2211,0xf8eb,0xf8ec,0xf8ed,0xf8ee,0xf8ef,0xf8f0,0xf8f1,0xf8f2,0xf8f3,0xf8f4,
    0x0,0x232a,0x222b,0x2320,0xf8f5,0x2321,0xf8f6,0xf8f7,0xf8f8,0xf8f9,0xf8fa,0xf8fb,0xf8fc,0xf8fd,0xf8fe,0x0,
};
static const char32_t tblZapfDingbats[256] = {
    0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
    0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
    0x20,0x2701,0x2702,0x2703,0x2704,0x260e,0x2706,0x2707,0x2708,0x2709,0x261b,0x261e,0x270c,0x270d,0x270e,0x270f,
    0x2710,0x2711,0x2712,0x2713,0x2714,0x2715,0x2716,0x2717,0x2718,0x2719,0x271a,0x271b,0x271c,0x271d,0x271e,0x271f,
    0x2720,0x2721,0x2722,0x2723,0x2724,0x2725,0x2726,0x2727,0x2605,0x2729,0x272a,0x272b,0x272c,0x272d,0x272e,0x272f,
    0x2730,0x2731,0x2732,0x2733,0x2734,0x2735,0x2736,0x2737,0x2738,0x2739,0x273a,0x273b,0x273c,0x273d,0x273e,0x273f,
    0x2740,0x2741,0x2742,0x2743,0x2744,0x2745,0x2746,0x2747,0x2748,0x2749,0x274a,0x274b,0x25cf,0x274d,0x25a0,0x274f,
    0x2750,0x2751,0x2752,0x25b2,0x25bc,0x25c6,0x2756,0x25d7,0x2758,0x2759,0x275a,0x275b,0x275c,0x275d,0x275e,0x0,
    0xf8d7,0xf8d8,0xf8d9,0xf8da,0xf8db,0xf8dc,0xf8dd,0xf8de,0xf8df,0xf8e0,0xf8e1,0xf8e2,0xf8e3,0xf8e4,0x0,0x0,
    0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
    0x0,0x2761,0x2762,0x2763,0x2764,0x2765,0x2766,0x2767,0x2663,0x2666,0x2665,0x2660,0x2460,0x2461,0x2462,0x2463,
    0x2464,0x2465,0x2466,0x2467,0x2468,0x2469,0x2776,0x2777,0x2778,0x2779,0x277a,0x277b,0x277c,0x277d,0x277e,0x277f,
    0x2780,0x2781,0x2782,0x2783,0x2784,0x2785,0x2786,0x2787,0x2788,0x2789,0x278a,0x278b,0x278c,0x278d,0x278e,0x278f,
    0x2790,0x2791,0x2792,0x2793,0x2794,0x2192,0x2194,0x2195,0x2798,0x2799,0x279a,0x279b,0x279c,0x279d,0x279e,0x279f,
    0x27a0,0x27a1,0x27a2,0x27a3,0x27a4,0x27a5,0x27a6,0x27a7,0x27a8,0x27a9,0x27aa,0x27ab,0x27ac,0x27ad,0x27ae,0x27af,
    0x0,0x27b1,0x27b2,0x27b3,0x27b4,0x27b5,0x27b6,0x27b7,0x27b8,0x27b9,0x27ba,0x27bb,0x27bc,0x27bd,0x27be,0x0,
};
#endif
