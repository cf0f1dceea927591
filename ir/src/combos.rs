// (autocorrelation entry, N, M, SKIP) and (root-mean-square entry, N)
macro_rules! ac_combos { ($cb:ident) => { $cb! {
    t_ac_1_1_0 1 1 0,
    t_ac_2_1_0 2 1 0,
    t_ac_2_1_1 2 1 1,
    t_ac_2_2_0 2 2 0,
    t_ac_3_1_0 3 1 0,
    t_ac_3_1_1 3 1 1,
    t_ac_3_1_2 3 1 2,
    t_ac_3_2_0 3 2 0,
    t_ac_3_2_1 3 2 1,
    t_ac_3_3_0 3 3 0,
    t_ac_4_1_0 4 1 0,
    t_ac_4_1_1 4 1 1,
    t_ac_4_1_2 4 1 2,
    t_ac_4_1_3 4 1 3,
    t_ac_4_2_0 4 2 0,
    t_ac_4_2_1 4 2 1,
    t_ac_4_2_2 4 2 2,
    t_ac_4_3_0 4 3 0,
    t_ac_4_3_1 4 3 1,
    t_ac_4_4_0 4 4 0,
    t_ac_5_1_0 5 1 0,
    t_ac_5_1_1 5 1 1,
    t_ac_5_1_2 5 1 2,
    t_ac_5_1_3 5 1 3,
    t_ac_5_1_4 5 1 4,
    t_ac_5_2_0 5 2 0,
    t_ac_5_2_1 5 2 1,
    t_ac_5_2_2 5 2 2,
    t_ac_5_2_3 5 2 3,
    t_ac_5_3_0 5 3 0,
    t_ac_5_3_1 5 3 1,
    t_ac_5_3_2 5 3 2,
    t_ac_5_4_0 5 4 0,
    t_ac_5_4_1 5 4 1,
    t_ac_5_5_0 5 5 0,
    t_ac_6_1_0 6 1 0,
    t_ac_6_1_1 6 1 1,
    t_ac_6_1_2 6 1 2,
    t_ac_6_1_3 6 1 3,
    t_ac_6_1_5 6 1 5,
    t_ac_6_2_0 6 2 0,
    t_ac_6_2_1 6 2 1,
    t_ac_6_2_2 6 2 2,
    t_ac_6_2_3 6 2 3,
    t_ac_6_3_0 6 3 0,
    t_ac_6_3_1 6 3 1,
    t_ac_6_3_2 6 3 2,
    t_ac_6_3_3 6 3 3,
    t_ac_6_4_0 6 4 0,
    t_ac_6_4_1 6 4 1,
    t_ac_6_4_2 6 4 2,
    t_ac_6_5_1 6 5 1,
    t_ac_6_6_0 6 6 0,
    t_ac_7_1_0 7 1 0,
    t_ac_7_1_1 7 1 1,
    t_ac_7_1_3 7 1 3,
    t_ac_7_1_6 7 1 6,
    t_ac_7_2_5 7 2 5,
    t_ac_7_3_0 7 3 0,
    t_ac_7_3_1 7 3 1,
    t_ac_7_3_3 7 3 3,
    t_ac_7_4_3 7 4 3,
    t_ac_7_5_2 7 5 2,
    t_ac_7_6_1 7 6 1,
    t_ac_7_7_0 7 7 0,
    t_ac_8_1_0 8 1 0,
    t_ac_8_1_1 8 1 1,
    t_ac_8_1_3 8 1 3,
    t_ac_8_1_4 8 1 4,
    t_ac_8_1_7 8 1 7,
    t_ac_8_3_0 8 3 0,
    t_ac_8_3_1 8 3 1,
    t_ac_8_3_3 8 3 3,
    t_ac_8_3_4 8 3 4,
    t_ac_8_3_5 8 3 5,
    t_ac_8_4_4 8 4 4,
    t_ac_8_5_3 8 5 3,
    t_ac_8_6_2 8 6 2,
    t_ac_8_7_1 8 7 1,
    t_ac_8_8_0 8 8 0,
    t_ac_9_1_0 9 1 0,
    t_ac_9_1_1 9 1 1,
    t_ac_9_1_3 9 1 3,
    t_ac_9_1_4 9 1 4,
    t_ac_9_1_8 9 1 8,
    t_ac_9_3_0 9 3 0,
    t_ac_9_3_1 9 3 1,
    t_ac_9_3_3 9 3 3,
    t_ac_9_3_4 9 3 4,
    t_ac_9_4_5 9 4 5,
    t_ac_9_5_4 9 5 4,
    t_ac_9_6_3 9 6 3,
    t_ac_9_7_2 9 7 2,
    t_ac_9_8_1 9 8 1,
    t_ac_9_9_0 9 9 0,
    t_ac_10_1_0 10 1 0,
    t_ac_10_1_1 10 1 1,
    t_ac_10_1_3 10 1 3,
    t_ac_10_1_5 10 1 5,
    t_ac_10_1_9 10 1 9,
    t_ac_10_2_8 10 2 8,
    t_ac_10_3_0 10 3 0,
    t_ac_10_3_1 10 3 1,
    t_ac_10_3_3 10 3 3,
    t_ac_10_3_5 10 3 5,
    t_ac_10_5_5 10 5 5,
    t_ac_10_7_3 10 7 3,
    t_ac_10_8_2 10 8 2,
    t_ac_10_9_1 10 9 1,
    t_ac_10_10_0 10 10 0,
    t_ac_11_1_0 11 1 0,
    t_ac_11_1_1 11 1 1,
    t_ac_11_1_3 11 1 3,
    t_ac_11_1_5 11 1 5,
    t_ac_11_1_10 11 1 10,
    t_ac_11_3_0 11 3 0,
    t_ac_11_3_1 11 3 1,
    t_ac_11_3_3 11 3 3,
    t_ac_11_3_5 11 3 5,
    t_ac_11_3_8 11 3 8,
    t_ac_11_6_5 11 6 5,
    t_ac_11_8_3 11 8 3,
    t_ac_11_9_2 11 9 2,
    t_ac_11_10_1 11 10 1,
    t_ac_11_11_0 11 11 0,
    t_ac_12_1_0 12 1 0,
    t_ac_12_1_1 12 1 1,
    t_ac_12_1_3 12 1 3,
    t_ac_12_1_6 12 1 6,
    t_ac_12_1_11 12 1 11,
    t_ac_12_3_0 12 3 0,
    t_ac_12_3_1 12 3 1,
    t_ac_12_3_3 12 3 3,
    t_ac_12_3_6 12 3 6,
    t_ac_12_4_8 12 4 8,
    t_ac_12_6_6 12 6 6,
    t_ac_12_7_5 12 7 5,
    t_ac_12_9_3 12 9 3,
    t_ac_12_10_2 12 10 2,
    t_ac_12_11_1 12 11 1,
    t_ac_12_12_0 12 12 0,
    t_ac_13_1_0 13 1 0,
    t_ac_13_1_1 13 1 1,
    t_ac_13_1_3 13 1 3,
    t_ac_13_1_6 13 1 6,
    t_ac_13_1_12 13 1 12,
    t_ac_13_3_0 13 3 0,
    t_ac_13_3_1 13 3 1,
    t_ac_13_3_3 13 3 3,
    t_ac_13_3_6 13 3 6,
    t_ac_13_5_8 13 5 8,
    t_ac_13_7_6 13 7 6,
    t_ac_13_8_5 13 8 5,
    t_ac_13_10_3 13 10 3,
    t_ac_13_11_2 13 11 2,
    t_ac_13_12_1 13 12 1,
    t_ac_13_13_0 13 13 0,
    t_ac_15_1_0 15 1 0,
    t_ac_15_1_1 15 1 1,
    t_ac_15_1_3 15 1 3,
    t_ac_15_1_7 15 1 7,
    t_ac_15_1_14 15 1 14,
    t_ac_15_3_0 15 3 0,
    t_ac_15_3_1 15 3 1,
    t_ac_15_3_3 15 3 3,
    t_ac_15_3_7 15 3 7,
    t_ac_15_7_8 15 7 8,
    t_ac_15_8_7 15 8 7,
    t_ac_15_10_5 15 10 5,
    t_ac_15_12_3 15 12 3,
    t_ac_15_13_2 15 13 2,
    t_ac_15_14_1 15 14 1,
    t_ac_15_15_0 15 15 0,
    t_ac_16_1_0 16 1 0,
    t_ac_16_1_1 16 1 1,
    t_ac_16_1_3 16 1 3,
    t_ac_16_1_8 16 1 8,
    t_ac_16_1_15 16 1 15,
    t_ac_16_3_0 16 3 0,
    t_ac_16_3_1 16 3 1,
    t_ac_16_3_3 16 3 3,
    t_ac_16_3_8 16 3 8,
    t_ac_16_8_8 16 8 8,
    t_ac_16_11_5 16 11 5,
    t_ac_16_13_3 16 13 3,
    t_ac_16_14_2 16 14 2,
    t_ac_16_15_1 16 15 1,
    t_ac_16_16_0 16 16 0,
    t_ac_17_1_0 17 1 0,
    t_ac_17_1_1 17 1 1,
    t_ac_17_1_3 17 1 3,
    t_ac_17_1_8 17 1 8,
    t_ac_17_1_16 17 1 16,
    t_ac_17_3_0 17 3 0,
    t_ac_17_3_1 17 3 1,
    t_ac_17_3_3 17 3 3,
    t_ac_17_3_8 17 3 8,
    t_ac_17_9_8 17 9 8,
    t_ac_17_12_5 17 12 5,
    t_ac_17_14_3 17 14 3,
    t_ac_17_15_2 17 15 2,
    t_ac_17_16_1 17 16 1,
    t_ac_17_17_0 17 17 0,
    t_ac_18_1_0 18 1 0,
    t_ac_18_1_1 18 1 1,
    t_ac_18_1_3 18 1 3,
    t_ac_18_1_9 18 1 9,
    t_ac_18_1_17 18 1 17,
    t_ac_18_3_0 18 3 0,
    t_ac_18_3_1 18 3 1,
    t_ac_18_3_3 18 3 3,
    t_ac_18_3_9 18 3 9,
    t_ac_18_9_9 18 9 9,
    t_ac_18_10_8 18 10 8,
    t_ac_18_13_5 18 13 5,
    t_ac_18_15_3 18 15 3,
    t_ac_18_16_2 18 16 2,
    t_ac_18_17_1 18 17 1,
    t_ac_18_18_0 18 18 0,
    t_ac_19_1_0 19 1 0,
    t_ac_19_1_1 19 1 1,
    t_ac_19_1_3 19 1 3,
    t_ac_19_1_9 19 1 9,
    t_ac_19_1_18 19 1 18,
    t_ac_19_3_0 19 3 0,
    t_ac_19_3_1 19 3 1,
    t_ac_19_3_3 19 3 3,
    t_ac_19_3_9 19 3 9,
    t_ac_19_10_9 19 10 9,
    t_ac_19_11_8 19 11 8,
    t_ac_19_14_5 19 14 5,
    t_ac_19_16_3 19 16 3,
    t_ac_19_17_2 19 17 2,
    t_ac_19_18_1 19 18 1,
    t_ac_19_19_0 19 19 0,
    t_ac_20_1_0 20 1 0,
    t_ac_20_1_1 20 1 1,
    t_ac_20_1_3 20 1 3,
    t_ac_20_1_10 20 1 10,
    t_ac_20_1_19 20 1 19,
    t_ac_20_3_0 20 3 0,
    t_ac_20_3_1 20 3 1,
    t_ac_20_3_3 20 3 3,
    t_ac_20_3_10 20 3 10,
    t_ac_20_10_10 20 10 10,
    t_ac_20_12_8 20 12 8,
    t_ac_20_15_5 20 15 5,
    t_ac_20_17_3 20 17 3,
    t_ac_20_18_2 20 18 2,
    t_ac_20_19_1 20 19 1,
    t_ac_20_20_0 20 20 0,
    t_ac_23_1_0 23 1 0,
    t_ac_23_1_1 23 1 1,
    t_ac_23_1_3 23 1 3,
    t_ac_23_1_11 23 1 11,
    t_ac_23_1_22 23 1 22,
    t_ac_23_3_0 23 3 0,
    t_ac_23_3_1 23 3 1,
    t_ac_23_3_3 23 3 3,
    t_ac_23_3_11 23 3 11,
    t_ac_23_12_11 23 12 11,
    t_ac_23_15_8 23 15 8,
    t_ac_23_18_5 23 18 5,
    t_ac_23_20_3 23 20 3,
    t_ac_23_21_2 23 21 2,
    t_ac_23_22_1 23 22 1,
    t_ac_23_23_0 23 23 0,
    t_ac_24_1_0 24 1 0,
    t_ac_24_1_1 24 1 1,
    t_ac_24_1_3 24 1 3,
    t_ac_24_1_12 24 1 12,
    t_ac_24_1_23 24 1 23,
    t_ac_24_3_0 24 3 0,
    t_ac_24_3_1 24 3 1,
    t_ac_24_3_3 24 3 3,
    t_ac_24_3_12 24 3 12,
    t_ac_24_12_12 24 12 12,
    t_ac_24_16_8 24 16 8,
    t_ac_24_19_5 24 19 5,
    t_ac_24_21_3 24 21 3,
    t_ac_24_22_2 24 22 2,
    t_ac_24_23_1 24 23 1,
    t_ac_24_24_0 24 24 0,
    t_ac_27_1_0 27 1 0,
    t_ac_27_1_1 27 1 1,
    t_ac_27_1_3 27 1 3,
    t_ac_27_1_13 27 1 13,
    t_ac_27_1_26 27 1 26,
    t_ac_27_3_0 27 3 0,
    t_ac_27_3_1 27 3 1,
    t_ac_27_3_3 27 3 3,
    t_ac_27_3_13 27 3 13,
    t_ac_27_14_13 27 14 13,
    t_ac_27_19_8 27 19 8,
    t_ac_27_22_5 27 22 5,
    t_ac_27_24_3 27 24 3,
    t_ac_27_25_2 27 25 2,
    t_ac_27_26_1 27 26 1,
    t_ac_27_27_0 27 27 0,
    t_ac_32_1_0 32 1 0,
    t_ac_32_1_1 32 1 1,
    t_ac_32_1_3 32 1 3,
    t_ac_32_1_16 32 1 16,
    t_ac_32_1_31 32 1 31,
    t_ac_32_3_0 32 3 0,
    t_ac_32_3_1 32 3 1,
    t_ac_32_3_3 32 3 3,
    t_ac_32_3_16 32 3 16,
    t_ac_32_16_16 32 16 16,
    t_ac_32_24_8 32 24 8,
    t_ac_32_27_5 32 27 5,
    t_ac_32_29_3 32 29 3,
    t_ac_32_30_2 32 30 2,
    t_ac_32_31_1 32 31 1,
    t_ac_32_32_0 32 32 0,
    t_ac_33_1_0 33 1 0,
    t_ac_33_1_1 33 1 1,
    t_ac_33_1_3 33 1 3,
    t_ac_33_1_16 33 1 16,
    t_ac_33_1_32 33 1 32,
    t_ac_33_3_0 33 3 0,
    t_ac_33_3_1 33 3 1,
    t_ac_33_3_3 33 3 3,
    t_ac_33_3_16 33 3 16,
    t_ac_33_17_16 33 17 16,
    t_ac_33_25_8 33 25 8,
    t_ac_33_28_5 33 28 5,
    t_ac_33_30_3 33 30 3,
    t_ac_33_31_2 33 31 2,
    t_ac_33_32_1 33 32 1,
    t_ac_33_33_0 33 33 0,
    t_ac_40_1_0 40 1 0,
    t_ac_40_1_1 40 1 1,
    t_ac_40_1_3 40 1 3,
    t_ac_40_1_20 40 1 20,
    t_ac_40_1_39 40 1 39,
    t_ac_40_3_0 40 3 0,
    t_ac_40_3_1 40 3 1,
    t_ac_40_3_3 40 3 3,
    t_ac_40_3_20 40 3 20,
    t_ac_40_20_20 40 20 20,
    t_ac_40_32_8 40 32 8,
    t_ac_40_35_5 40 35 5,
    t_ac_40_37_3 40 37 3,
    t_ac_40_38_2 40 38 2,
    t_ac_40_39_1 40 39 1,
    t_ac_40_40_0 40 40 0,
    t_ac_64_1_0 64 1 0,
    t_ac_64_1_1 64 1 1,
    t_ac_64_1_3 64 1 3,
    t_ac_64_1_32 64 1 32,
    t_ac_64_1_63 64 1 63,
    t_ac_64_3_0 64 3 0,
    t_ac_64_3_1 64 3 1,
    t_ac_64_3_3 64 3 3,
    t_ac_64_3_32 64 3 32,
    t_ac_64_32_32 64 32 32,
    t_ac_64_56_8 64 56 8,
    t_ac_64_59_5 64 59 5,
    t_ac_64_61_3 64 61 3,
    t_ac_64_62_2 64 62 2,
    t_ac_64_63_1 64 63 1,
    t_ac_64_64_0 64 64 0,
    t_ac_66_1_0 66 1 0,
    t_ac_66_1_1 66 1 1,
    t_ac_66_1_3 66 1 3,
    t_ac_66_1_33 66 1 33,
    t_ac_66_1_65 66 1 65,
    t_ac_66_3_0 66 3 0,
    t_ac_66_3_1 66 3 1,
    t_ac_66_3_3 66 3 3,
    t_ac_66_3_33 66 3 33,
    t_ac_66_33_33 66 33 33,
    t_ac_66_58_8 66 58 8,
    t_ac_66_61_5 66 61 5,
    t_ac_66_63_3 66 63 3,
    t_ac_66_64_2 66 64 2,
    t_ac_66_65_1 66 65 1,
    t_ac_66_66_0 66 66 0,
    t_ac_101_1_0 101 1 0,
    t_ac_101_1_1 101 1 1,
    t_ac_101_1_3 101 1 3,
    t_ac_101_1_50 101 1 50,
    t_ac_101_1_100 101 1 100,
    t_ac_101_3_0 101 3 0,
    t_ac_101_3_1 101 3 1,
    t_ac_101_3_3 101 3 3,
    t_ac_101_3_50 101 3 50,
    t_ac_101_51_50 101 51 50,
    t_ac_101_93_8 101 93 8,
    t_ac_101_96_5 101 96 5,
    t_ac_101_98_3 101 98 3,
    t_ac_101_99_2 101 99 2,
    t_ac_101_100_1 101 100 1,
    t_ac_101_101_0 101 101 0,
} } }
macro_rules! rms_combos { ($cb:ident) => { $cb! {
    t_rms_1 1,
    t_rms_2 2,
    t_rms_3 3,
    t_rms_4 4,
    t_rms_5 5,
    t_rms_6 6,
    t_rms_7 7,
    t_rms_8 8,
    t_rms_9 9,
    t_rms_10 10,
    t_rms_11 11,
    t_rms_12 12,
    t_rms_13 13,
    t_rms_15 15,
    t_rms_16 16,
    t_rms_17 17,
    t_rms_18 18,
    t_rms_19 19,
    t_rms_20 20,
    t_rms_23 23,
    t_rms_24 24,
    t_rms_27 27,
    t_rms_32 32,
    t_rms_33 33,
    t_rms_40 40,
    t_rms_64 64,
    t_rms_66 66,
    t_rms_101 101,
} } }
// requests for more lags than there are
macro_rules! ac_rejects { ($cb:ident) => { $cb! {
    t_acr_1_1_1 1 1 1,
    t_acr_1_2_0 1 2 0,
    t_acr_2_2_1 2 2 1,
    t_acr_2_1_2 2 1 2,
    t_acr_3_2_2 3 2 2,
    t_acr_4_4_1 4 4 1,
    t_acr_4_8_0 4 8 0,
    t_acr_5_3_3 5 3 3,
    t_acr_7_5_3 7 5 3,
    t_acr_8_8_1 8 8 1,
    t_acr_8_5_4 8 5 4,
    t_acr_8_1_8 8 1 8,
    t_acr_9_7_3 9 7 3,
    t_acr_10_11_0 10 11 0,
    t_acr_16_13_4 16 13 4,
    t_acr_16_16_1 16 16 1,
    t_acr_3_1_4 3 1 4,
    t_acr_33_31_3 33 31 3,
} } }
