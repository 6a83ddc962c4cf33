// every case: its name (q: quick, t: thorough only) and what runs
cases! {
    q_altered_cbc128_0 => altered::<Aes128CbcHmac256>(2, 17, 0),
    q_altered_cbc128_m16 => altered::<Aes128CbcHmac256>(2, 17, -16),
    q_altered_cbc256_0 => altered::<Aes256CbcHmac512>(2, 17, 0),
    q_altered_cbc256_m16 => altered::<Aes256CbcHmac512>(2, 17, -16),
    q_altered_chacha_0 => altered::<ChaCha20Poly1305>(2, 17, 0),
    q_altered_chacha_m1 => altered::<ChaCha20Poly1305>(2, 17, -1),
    q_altered_gcm128_0 => altered::<Aes128Gcm>(2, 17, 0),
    q_altered_gcm128_m1 => altered::<Aes128Gcm>(2, 17, -1),
    q_altered_gcm256_0 => altered::<Aes256Gcm>(2, 17, 0),
    q_altered_gcm256_m1 => altered::<Aes256Gcm>(2, 17, -1),
    q_altered_xchacha_0 => altered::<XChaCha20Poly1305>(2, 17, 0),
    q_altered_xchacha_m1 => altered::<XChaCha20Poly1305>(2, 17, -1),
    q_any_cbc128_0 => malformed::<Aes128CbcHmac256>(0),
    q_any_cbc128_15 => malformed::<Aes128CbcHmac256>(15),
    q_any_cbc128_48 => malformed::<Aes128CbcHmac256>(48),
    q_any_cbc128_64 => malformed::<Aes128CbcHmac256>(64),
    q_any_cbc256_0 => malformed::<Aes256CbcHmac512>(0),
    q_any_cbc256_15 => malformed::<Aes256CbcHmac512>(15),
    q_any_cbc256_48 => malformed::<Aes256CbcHmac512>(48),
    q_any_cbc256_64 => malformed::<Aes256CbcHmac512>(64),
    q_any_cbc256_96 => malformed::<Aes256CbcHmac512>(96),
    q_any_chacha_0 => malformed::<ChaCha20Poly1305>(0),
    q_any_chacha_11 => malformed::<ChaCha20Poly1305>(11),
    q_any_chacha_28 => malformed::<ChaCha20Poly1305>(28),
    q_any_chacha_40 => malformed::<ChaCha20Poly1305>(40),
    q_any_gcm128_0 => malformed::<Aes128Gcm>(0),
    q_any_gcm128_11 => malformed::<Aes128Gcm>(11),
    q_any_gcm128_28 => malformed::<Aes128Gcm>(28),
    q_any_gcm128_40 => malformed::<Aes128Gcm>(40),
    q_any_gcm256_0 => malformed::<Aes256Gcm>(0),
    q_any_gcm256_11 => malformed::<Aes256Gcm>(11),
    q_any_gcm256_28 => malformed::<Aes256Gcm>(28),
    q_any_gcm256_40 => malformed::<Aes256Gcm>(40),
    q_any_xchacha_0 => malformed::<XChaCha20Poly1305>(0),
    q_any_xchacha_11 => malformed::<XChaCha20Poly1305>(11),
    q_any_xchacha_28 => malformed::<XChaCha20Poly1305>(28),
    q_any_xchacha_40 => malformed::<XChaCha20Poly1305>(40),
    q_easy_cbc128_1_4 => easy::<Aes128CbcHmac256>(1, 4),
    q_easy_cbc256_1_4 => easy::<Aes256CbcHmac512>(1, 4),
    q_easy_chacha_1_4 => easy::<ChaCha20Poly1305>(1, 4),
    q_easy_gcm128_1_4 => easy::<Aes128Gcm>(1, 4),
    q_easy_gcm256_1_4 => easy::<Aes256Gcm>(1, 4),
    q_easy_xchacha_1_4 => easy::<XChaCha20Poly1305>(1, 4),
    q_key_cbc128 => other_key::<Aes128CbcHmac256>(2),
    q_key_cbc256 => other_key::<Aes256CbcHmac512>(2),
    q_key_chacha => other_key::<ChaCha20Poly1305>(2),
    q_key_gcm128 => other_key::<Aes128Gcm>(2),
    q_key_gcm256 => other_key::<Aes256Gcm>(2),
    q_key_xchacha => other_key::<XChaCha20Poly1305>(2),
    q_lengths_cbc128_0 => lengths::<Aes128CbcHmac256>(0),
    q_lengths_cbc128_16 => lengths::<Aes128CbcHmac256>(16),
    q_lengths_cbc128_33 => lengths::<Aes128CbcHmac256>(33),
    q_lengths_cbc256_0 => lengths::<Aes256CbcHmac512>(0),
    q_lengths_cbc256_16 => lengths::<Aes256CbcHmac512>(16),
    q_lengths_cbc256_33 => lengths::<Aes256CbcHmac512>(33),
    q_lengths_chacha_0 => lengths::<ChaCha20Poly1305>(0),
    q_lengths_chacha_16 => lengths::<ChaCha20Poly1305>(16),
    q_lengths_gcm128_0 => lengths::<Aes128Gcm>(0),
    q_lengths_gcm128_16 => lengths::<Aes128Gcm>(16),
    q_lengths_gcm256_0 => lengths::<Aes256Gcm>(0),
    q_lengths_gcm256_16 => lengths::<Aes256Gcm>(16),
    q_lengths_xchacha_0 => lengths::<XChaCha20Poly1305>(0),
    q_lengths_xchacha_16 => lengths::<XChaCha20Poly1305>(16),
    q_named_cbc128 => named::<Aes128CbcHmac256>(EncryptorType::Aes128CbcHmac256, 3),
    q_named_out_cbc128 => named_out::<Aes128CbcHmac256>(EncryptorType::Aes128CbcHmac256, 3),
    q_named_in_cbc128 => named_in::<Aes128CbcHmac256>(EncryptorType::Aes128CbcHmac256, 3),
    q_named_cbc256 => named::<Aes256CbcHmac512>(EncryptorType::Aes256CbcHmac512, 3),
    q_named_out_cbc256 => named_out::<Aes256CbcHmac512>(EncryptorType::Aes256CbcHmac512, 3),
    q_named_in_cbc256 => named_in::<Aes256CbcHmac512>(EncryptorType::Aes256CbcHmac512, 3),
    q_named_gcm128 => named::<Aes128Gcm>(EncryptorType::Aes128Gcm, 3),
    q_named_out_gcm128 => named_out::<Aes128Gcm>(EncryptorType::Aes128Gcm, 3),
    q_named_in_gcm128 => named_in::<Aes128Gcm>(EncryptorType::Aes128Gcm, 3),
    q_named_gcm256 => named::<Aes256Gcm>(EncryptorType::Aes256Gcm, 3),
    q_named_out_gcm256 => named_out::<Aes256Gcm>(EncryptorType::Aes256Gcm, 3),
    q_named_in_gcm256 => named_in::<Aes256Gcm>(EncryptorType::Aes256Gcm, 3),
    q_named_xchacha => named::<XChaCha20Poly1305>(EncryptorType::XChaCha20Poly1305, 3),
    q_named_out_xchacha => named_out::<XChaCha20Poly1305>(EncryptorType::XChaCha20Poly1305, 3),
    q_named_in_xchacha => named_in::<XChaCha20Poly1305>(EncryptorType::XChaCha20Poly1305, 3),
    q_round_cbc128_0_15 => round::<Aes128CbcHmac256>(0, 15),
    q_round_cbc128_1_0 => round::<Aes128CbcHmac256>(1, 0),
    q_round_cbc128_2_16 => round::<Aes128CbcHmac256>(2, 16),
    q_round_cbc256_0_15 => round::<Aes256CbcHmac512>(0, 15),
    q_round_cbc256_1_0 => round::<Aes256CbcHmac512>(1, 0),
    q_round_cbc256_2_16 => round::<Aes256CbcHmac512>(2, 16),
    q_round_chacha_1_0 => round::<ChaCha20Poly1305>(1, 0),
    q_round_chacha_2_13 => round::<ChaCha20Poly1305>(2, 13),
    q_round_gcm128_1_0 => round::<Aes128Gcm>(1, 0),
    q_round_gcm128_2_13 => round::<Aes128Gcm>(2, 13),
    q_round_gcm256_1_0 => round::<Aes256Gcm>(1, 0),
    q_round_gcm256_2_13 => round::<Aes256Gcm>(2, 13),
    q_round_xchacha_1_0 => round::<XChaCha20Poly1305>(1, 0),
    q_round_xchacha_2_13 => round::<XChaCha20Poly1305>(2, 13),
    q_shifted_cbc128 => shifted::<Aes128CbcHmac256>(1, 17),
    q_shifted_cbc256 => shifted::<Aes256CbcHmac512>(1, 17),
    q_shifted_chacha => shifted::<ChaCha20Poly1305>(1, 17),
    q_shifted_gcm128 => shifted::<Aes128Gcm>(1, 17),
    q_shifted_gcm256 => shifted::<Aes256Gcm>(1, 17),
    q_shifted_xchacha => shifted::<XChaCha20Poly1305>(1, 17),
    q_stream_in_cbc128 => stream_in::<Aes128CbcHmac256>(1, 5),
    q_stream_in_cbc256 => stream_in::<Aes256CbcHmac512>(1, 5),
    q_stream_in_chacha => stream_in::<ChaCha20Poly1305>(1, 5),
    q_stream_out_chacha => stream_out::<ChaCha20Poly1305>(1, 5),
    q_stream_in_gcm128 => stream_in::<Aes128Gcm>(1, 5),
    q_stream_out_gcm128 => stream_out::<Aes128Gcm>(1, 5),
    q_stream_in_gcm256 => stream_in::<Aes256Gcm>(1, 5),
    q_stream_out_gcm256 => stream_out::<Aes256Gcm>(1, 5),
    q_stream_in_xchacha => stream_in::<XChaCha20Poly1305>(1, 5),
    q_stream_out_xchacha => stream_out::<XChaCha20Poly1305>(1, 5),
    t_altered_cbc128_1 => altered::<Aes128CbcHmac256>(2, 17, 1),
    t_altered_cbc128_16 => altered::<Aes128CbcHmac256>(2, 17, 16),
    t_altered_cbc128_m1 => altered::<Aes128CbcHmac256>(2, 17, -1),
    t_altered_cbc128_m32 => altered::<Aes128CbcHmac256>(2, 17, -32),
    t_altered_cbc256_1 => altered::<Aes256CbcHmac512>(2, 17, 1),
    t_altered_cbc256_16 => altered::<Aes256CbcHmac512>(2, 17, 16),
    t_altered_cbc256_m1 => altered::<Aes256CbcHmac512>(2, 17, -1),
    t_altered_cbc256_m32 => altered::<Aes256CbcHmac512>(2, 17, -32),
    t_altered_chacha_1 => altered::<ChaCha20Poly1305>(2, 17, 1),
    t_altered_chacha_m16 => altered::<ChaCha20Poly1305>(2, 17, -16),
    t_altered_chacha_m17 => altered::<ChaCha20Poly1305>(2, 17, -17),
    t_altered_gcm128_1 => altered::<Aes128Gcm>(2, 17, 1),
    t_altered_gcm128_m16 => altered::<Aes128Gcm>(2, 17, -16),
    t_altered_gcm128_m17 => altered::<Aes128Gcm>(2, 17, -17),
    t_altered_gcm256_1 => altered::<Aes256Gcm>(2, 17, 1),
    t_altered_gcm256_m16 => altered::<Aes256Gcm>(2, 17, -16),
    t_altered_gcm256_m17 => altered::<Aes256Gcm>(2, 17, -17),
    t_altered_short_cbc128 => altered::<Aes128CbcHmac256>(0, 0, 0),
    t_altered_short_cbc256 => altered::<Aes256CbcHmac512>(0, 0, 0),
    t_altered_short_chacha => altered::<ChaCha20Poly1305>(0, 0, 0),
    t_altered_short_gcm128 => altered::<Aes128Gcm>(0, 0, 0),
    t_altered_short_gcm256 => altered::<Aes256Gcm>(0, 0, 0),
    t_altered_short_xchacha => altered::<XChaCha20Poly1305>(0, 0, 0),
    t_altered_xchacha_1 => altered::<XChaCha20Poly1305>(2, 17, 1),
    t_altered_xchacha_m16 => altered::<XChaCha20Poly1305>(2, 17, -16),
    t_altered_xchacha_m17 => altered::<XChaCha20Poly1305>(2, 17, -17),
    t_any_cbc128_1 => malformed::<Aes128CbcHmac256>(1),
    t_any_cbc128_112 => malformed::<Aes128CbcHmac256>(112),
    t_any_cbc128_128 => malformed::<Aes128CbcHmac256>(128),
    t_any_cbc128_16 => malformed::<Aes128CbcHmac256>(16),
    t_any_cbc128_17 => malformed::<Aes128CbcHmac256>(17),
    t_any_cbc128_31 => malformed::<Aes128CbcHmac256>(31),
    t_any_cbc128_32 => malformed::<Aes128CbcHmac256>(32),
    t_any_cbc128_47 => malformed::<Aes128CbcHmac256>(47),
    t_any_cbc128_63 => malformed::<Aes128CbcHmac256>(63),
    t_any_cbc128_65 => malformed::<Aes128CbcHmac256>(65),
    t_any_cbc128_79 => malformed::<Aes128CbcHmac256>(79),
    t_any_cbc128_80 => malformed::<Aes128CbcHmac256>(80),
    t_any_cbc128_81 => malformed::<Aes128CbcHmac256>(81),
    t_any_cbc128_95 => malformed::<Aes128CbcHmac256>(95),
    t_any_cbc128_97 => malformed::<Aes128CbcHmac256>(97),
    t_any_cbc256_1 => malformed::<Aes256CbcHmac512>(1),
    t_any_cbc256_112 => malformed::<Aes256CbcHmac512>(112),
    t_any_cbc256_128 => malformed::<Aes256CbcHmac512>(128),
    t_any_cbc256_16 => malformed::<Aes256CbcHmac512>(16),
    t_any_cbc256_17 => malformed::<Aes256CbcHmac512>(17),
    t_any_cbc256_31 => malformed::<Aes256CbcHmac512>(31),
    t_any_cbc256_32 => malformed::<Aes256CbcHmac512>(32),
    t_any_cbc256_47 => malformed::<Aes256CbcHmac512>(47),
    t_any_cbc256_63 => malformed::<Aes256CbcHmac512>(63),
    t_any_cbc256_65 => malformed::<Aes256CbcHmac512>(65),
    t_any_cbc256_79 => malformed::<Aes256CbcHmac512>(79),
    t_any_cbc256_80 => malformed::<Aes256CbcHmac512>(80),
    t_any_cbc256_81 => malformed::<Aes256CbcHmac512>(81),
    t_any_cbc256_95 => malformed::<Aes256CbcHmac512>(95),
    t_any_cbc256_97 => malformed::<Aes256CbcHmac512>(97),
    t_any_chacha_1 => malformed::<ChaCha20Poly1305>(1),
    t_any_chacha_12 => malformed::<ChaCha20Poly1305>(12),
    t_any_chacha_13 => malformed::<ChaCha20Poly1305>(13),
    t_any_chacha_23 => malformed::<ChaCha20Poly1305>(23),
    t_any_chacha_24 => malformed::<ChaCha20Poly1305>(24),
    t_any_chacha_25 => malformed::<ChaCha20Poly1305>(25),
    t_any_chacha_27 => malformed::<ChaCha20Poly1305>(27),
    t_any_chacha_29 => malformed::<ChaCha20Poly1305>(29),
    t_any_chacha_35 => malformed::<ChaCha20Poly1305>(35),
    t_any_chacha_36 => malformed::<ChaCha20Poly1305>(36),
    t_any_chacha_37 => malformed::<ChaCha20Poly1305>(37),
    t_any_chacha_39 => malformed::<ChaCha20Poly1305>(39),
    t_any_chacha_41 => malformed::<ChaCha20Poly1305>(41),
    t_any_chacha_47 => malformed::<ChaCha20Poly1305>(47),
    t_any_chacha_48 => malformed::<ChaCha20Poly1305>(48),
    t_any_chacha_64 => malformed::<ChaCha20Poly1305>(64),
    t_any_gcm128_1 => malformed::<Aes128Gcm>(1),
    t_any_gcm128_12 => malformed::<Aes128Gcm>(12),
    t_any_gcm128_13 => malformed::<Aes128Gcm>(13),
    t_any_gcm128_23 => malformed::<Aes128Gcm>(23),
    t_any_gcm128_24 => malformed::<Aes128Gcm>(24),
    t_any_gcm128_25 => malformed::<Aes128Gcm>(25),
    t_any_gcm128_27 => malformed::<Aes128Gcm>(27),
    t_any_gcm128_29 => malformed::<Aes128Gcm>(29),
    t_any_gcm128_35 => malformed::<Aes128Gcm>(35),
    t_any_gcm128_36 => malformed::<Aes128Gcm>(36),
    t_any_gcm128_37 => malformed::<Aes128Gcm>(37),
    t_any_gcm128_39 => malformed::<Aes128Gcm>(39),
    t_any_gcm128_41 => malformed::<Aes128Gcm>(41),
    t_any_gcm128_47 => malformed::<Aes128Gcm>(47),
    t_any_gcm128_48 => malformed::<Aes128Gcm>(48),
    t_any_gcm128_64 => malformed::<Aes128Gcm>(64),
    t_any_gcm256_1 => malformed::<Aes256Gcm>(1),
    t_any_gcm256_12 => malformed::<Aes256Gcm>(12),
    t_any_gcm256_13 => malformed::<Aes256Gcm>(13),
    t_any_gcm256_23 => malformed::<Aes256Gcm>(23),
    t_any_gcm256_24 => malformed::<Aes256Gcm>(24),
    t_any_gcm256_25 => malformed::<Aes256Gcm>(25),
    t_any_gcm256_27 => malformed::<Aes256Gcm>(27),
    t_any_gcm256_29 => malformed::<Aes256Gcm>(29),
    t_any_gcm256_35 => malformed::<Aes256Gcm>(35),
    t_any_gcm256_36 => malformed::<Aes256Gcm>(36),
    t_any_gcm256_37 => malformed::<Aes256Gcm>(37),
    t_any_gcm256_39 => malformed::<Aes256Gcm>(39),
    t_any_gcm256_41 => malformed::<Aes256Gcm>(41),
    t_any_gcm256_47 => malformed::<Aes256Gcm>(47),
    t_any_gcm256_48 => malformed::<Aes256Gcm>(48),
    t_any_gcm256_64 => malformed::<Aes256Gcm>(64),
    t_any_xchacha_1 => malformed::<XChaCha20Poly1305>(1),
    t_any_xchacha_12 => malformed::<XChaCha20Poly1305>(12),
    t_any_xchacha_13 => malformed::<XChaCha20Poly1305>(13),
    t_any_xchacha_23 => malformed::<XChaCha20Poly1305>(23),
    t_any_xchacha_24 => malformed::<XChaCha20Poly1305>(24),
    t_any_xchacha_25 => malformed::<XChaCha20Poly1305>(25),
    t_any_xchacha_27 => malformed::<XChaCha20Poly1305>(27),
    t_any_xchacha_29 => malformed::<XChaCha20Poly1305>(29),
    t_any_xchacha_35 => malformed::<XChaCha20Poly1305>(35),
    t_any_xchacha_36 => malformed::<XChaCha20Poly1305>(36),
    t_any_xchacha_37 => malformed::<XChaCha20Poly1305>(37),
    t_any_xchacha_39 => malformed::<XChaCha20Poly1305>(39),
    t_any_xchacha_41 => malformed::<XChaCha20Poly1305>(41),
    t_any_xchacha_47 => malformed::<XChaCha20Poly1305>(47),
    t_any_xchacha_48 => malformed::<XChaCha20Poly1305>(48),
    t_any_xchacha_64 => malformed::<XChaCha20Poly1305>(64),
    t_easy_cbc128_0_20 => easy::<Aes128CbcHmac256>(0, 20),
    t_easy_cbc256_0_20 => easy::<Aes256CbcHmac512>(0, 20),
    t_easy_chacha_0_20 => easy::<ChaCha20Poly1305>(0, 20),
    t_easy_gcm128_0_20 => easy::<Aes128Gcm>(0, 20),
    t_easy_gcm256_0_20 => easy::<Aes256Gcm>(0, 20),
    t_easy_xchacha_0_20 => easy::<XChaCha20Poly1305>(0, 20),
    t_lengths_cbc128_1 => lengths::<Aes128CbcHmac256>(1),
    t_lengths_cbc128_11 => lengths::<Aes128CbcHmac256>(11),
    t_lengths_cbc128_12 => lengths::<Aes128CbcHmac256>(12),
    t_lengths_cbc128_15 => lengths::<Aes128CbcHmac256>(15),
    t_lengths_cbc128_17 => lengths::<Aes128CbcHmac256>(17),
    t_lengths_cbc128_24 => lengths::<Aes128CbcHmac256>(24),
    t_lengths_cbc128_31 => lengths::<Aes128CbcHmac256>(31),
    t_lengths_cbc128_32 => lengths::<Aes128CbcHmac256>(32),
    t_lengths_cbc128_64 => lengths::<Aes128CbcHmac256>(64),
    t_lengths_cbc128_65 => lengths::<Aes128CbcHmac256>(65),
    t_lengths_cbc256_1 => lengths::<Aes256CbcHmac512>(1),
    t_lengths_cbc256_11 => lengths::<Aes256CbcHmac512>(11),
    t_lengths_cbc256_12 => lengths::<Aes256CbcHmac512>(12),
    t_lengths_cbc256_15 => lengths::<Aes256CbcHmac512>(15),
    t_lengths_cbc256_17 => lengths::<Aes256CbcHmac512>(17),
    t_lengths_cbc256_24 => lengths::<Aes256CbcHmac512>(24),
    t_lengths_cbc256_31 => lengths::<Aes256CbcHmac512>(31),
    t_lengths_cbc256_32 => lengths::<Aes256CbcHmac512>(32),
    t_lengths_cbc256_64 => lengths::<Aes256CbcHmac512>(64),
    t_lengths_cbc256_65 => lengths::<Aes256CbcHmac512>(65),
    t_lengths_chacha_1 => lengths::<ChaCha20Poly1305>(1),
    t_lengths_chacha_11 => lengths::<ChaCha20Poly1305>(11),
    t_lengths_chacha_12 => lengths::<ChaCha20Poly1305>(12),
    t_lengths_chacha_15 => lengths::<ChaCha20Poly1305>(15),
    t_lengths_chacha_17 => lengths::<ChaCha20Poly1305>(17),
    t_lengths_chacha_24 => lengths::<ChaCha20Poly1305>(24),
    t_lengths_chacha_31 => lengths::<ChaCha20Poly1305>(31),
    t_lengths_chacha_32 => lengths::<ChaCha20Poly1305>(32),
    t_lengths_chacha_64 => lengths::<ChaCha20Poly1305>(64),
    t_lengths_chacha_65 => lengths::<ChaCha20Poly1305>(65),
    t_lengths_gcm128_1 => lengths::<Aes128Gcm>(1),
    t_lengths_gcm128_11 => lengths::<Aes128Gcm>(11),
    t_lengths_gcm128_12 => lengths::<Aes128Gcm>(12),
    t_lengths_gcm128_15 => lengths::<Aes128Gcm>(15),
    t_lengths_gcm128_17 => lengths::<Aes128Gcm>(17),
    t_lengths_gcm128_24 => lengths::<Aes128Gcm>(24),
    t_lengths_gcm128_31 => lengths::<Aes128Gcm>(31),
    t_lengths_gcm128_32 => lengths::<Aes128Gcm>(32),
    t_lengths_gcm128_64 => lengths::<Aes128Gcm>(64),
    t_lengths_gcm128_65 => lengths::<Aes128Gcm>(65),
    t_lengths_gcm256_1 => lengths::<Aes256Gcm>(1),
    t_lengths_gcm256_11 => lengths::<Aes256Gcm>(11),
    t_lengths_gcm256_12 => lengths::<Aes256Gcm>(12),
    t_lengths_gcm256_15 => lengths::<Aes256Gcm>(15),
    t_lengths_gcm256_17 => lengths::<Aes256Gcm>(17),
    t_lengths_gcm256_24 => lengths::<Aes256Gcm>(24),
    t_lengths_gcm256_31 => lengths::<Aes256Gcm>(31),
    t_lengths_gcm256_32 => lengths::<Aes256Gcm>(32),
    t_lengths_gcm256_64 => lengths::<Aes256Gcm>(64),
    t_lengths_gcm256_65 => lengths::<Aes256Gcm>(65),
    t_lengths_xchacha_1 => lengths::<XChaCha20Poly1305>(1),
    t_lengths_xchacha_11 => lengths::<XChaCha20Poly1305>(11),
    t_lengths_xchacha_12 => lengths::<XChaCha20Poly1305>(12),
    t_lengths_xchacha_15 => lengths::<XChaCha20Poly1305>(15),
    t_lengths_xchacha_17 => lengths::<XChaCha20Poly1305>(17),
    t_lengths_xchacha_24 => lengths::<XChaCha20Poly1305>(24),
    t_lengths_xchacha_31 => lengths::<XChaCha20Poly1305>(31),
    t_lengths_xchacha_32 => lengths::<XChaCha20Poly1305>(32),
    t_lengths_xchacha_64 => lengths::<XChaCha20Poly1305>(64),
    t_lengths_xchacha_65 => lengths::<XChaCha20Poly1305>(65),
    t_round_cbc128_0_1 => round::<Aes128CbcHmac256>(0, 1),
    t_round_cbc128_0_32 => round::<Aes128CbcHmac256>(0, 32),
    t_round_cbc128_17_31 => round::<Aes128CbcHmac256>(17, 31),
    t_round_cbc128_1_14 => round::<Aes128CbcHmac256>(1, 14),
    t_round_cbc128_3_17 => round::<Aes128CbcHmac256>(3, 17),
    t_round_cbc256_0_1 => round::<Aes256CbcHmac512>(0, 1),
    t_round_cbc256_0_32 => round::<Aes256CbcHmac512>(0, 32),
    t_round_cbc256_17_31 => round::<Aes256CbcHmac512>(17, 31),
    t_round_cbc256_1_14 => round::<Aes256CbcHmac512>(1, 14),
    t_round_cbc256_3_17 => round::<Aes256CbcHmac512>(3, 17),
    t_round_chacha_0_1 => round::<ChaCha20Poly1305>(0, 1),
    t_round_chacha_0_3 => round::<ChaCha20Poly1305>(0, 3),
    t_round_chacha_0_7 => round::<ChaCha20Poly1305>(0, 7),
    t_round_chacha_0_8 => round::<ChaCha20Poly1305>(0, 8),
    t_round_chacha_17_12 => round::<ChaCha20Poly1305>(17, 12),
    t_round_chacha_3_11 => round::<ChaCha20Poly1305>(3, 11),
    t_round_chacha_5_33 => round::<ChaCha20Poly1305>(5, 33),
    t_round_gcm128_0_1 => round::<Aes128Gcm>(0, 1),
    t_round_gcm128_0_3 => round::<Aes128Gcm>(0, 3),
    t_round_gcm128_0_7 => round::<Aes128Gcm>(0, 7),
    t_round_gcm128_0_8 => round::<Aes128Gcm>(0, 8),
    t_round_gcm128_17_12 => round::<Aes128Gcm>(17, 12),
    t_round_gcm128_3_11 => round::<Aes128Gcm>(3, 11),
    t_round_gcm128_5_33 => round::<Aes128Gcm>(5, 33),
    t_round_gcm256_0_1 => round::<Aes256Gcm>(0, 1),
    t_round_gcm256_0_3 => round::<Aes256Gcm>(0, 3),
    t_round_gcm256_0_7 => round::<Aes256Gcm>(0, 7),
    t_round_gcm256_0_8 => round::<Aes256Gcm>(0, 8),
    t_round_gcm256_17_12 => round::<Aes256Gcm>(17, 12),
    t_round_gcm256_3_11 => round::<Aes256Gcm>(3, 11),
    t_round_gcm256_5_33 => round::<Aes256Gcm>(5, 33),
    t_round_xchacha_0_1 => round::<XChaCha20Poly1305>(0, 1),
    t_round_xchacha_0_3 => round::<XChaCha20Poly1305>(0, 3),
    t_round_xchacha_0_7 => round::<XChaCha20Poly1305>(0, 7),
    t_round_xchacha_0_8 => round::<XChaCha20Poly1305>(0, 8),
    t_round_xchacha_17_12 => round::<XChaCha20Poly1305>(17, 12),
    t_round_xchacha_3_11 => round::<XChaCha20Poly1305>(3, 11),
    t_round_xchacha_5_33 => round::<XChaCha20Poly1305>(5, 33),
    q_data_cbc128_48 => other_data::<Aes128CbcHmac256>(48, 2),
    t_data_cbc128_100 => other_data::<Aes128CbcHmac256>(100, 1),
    q_data_cbc256_48 => other_data::<Aes256CbcHmac512>(48, 2),
    t_data_cbc256_100 => other_data::<Aes256CbcHmac512>(100, 1),
    q_data_gcm128_48 => other_data::<Aes128Gcm>(48, 2),
    t_data_gcm128_100 => other_data::<Aes128Gcm>(100, 1),
    q_data_gcm256_48 => other_data::<Aes256Gcm>(48, 2),
    t_data_gcm256_100 => other_data::<Aes256Gcm>(100, 1),
    q_data_chacha_48 => other_data::<ChaCha20Poly1305>(48, 2),
    t_data_chacha_100 => other_data::<ChaCha20Poly1305>(100, 1),
    q_data_xchacha_48 => other_data::<XChaCha20Poly1305>(48, 2),
    t_data_xchacha_100 => other_data::<XChaCha20Poly1305>(100, 1),
}
