CODEC(rle8_multi_compress, rle8_decompress, rle_compress_bounds, "byte", 1)
CODEC(rle8_multi_short_compress, rle8_multi_short_decompress, rle_compress_bounds, "short", 1)
CODEC(rle8_packed_multi_compress, rle8_packed_decompress, rle_compress_bounds, "byte", 1)
CODEC(rle8_1symlut_short_compress, rle8_1symlut_short_decompress, rle_compress_bounds, "short", 1)
CODEC(rle8_3symlut_compress, rle8_3symlut_decompress, rle_compress_bounds, "symlut", 1)
CODEC(rle8_3symlut_short_compress, rle8_3symlut_short_decompress, rle_compress_bounds, "short", 1)
CODEC(rle8_7symlut_compress, rle8_7symlut_decompress, rle_compress_bounds, "symlut", 1)
CODEC(rle8_7symlut_short_compress, rle8_7symlut_short_decompress, rle_compress_bounds, "short", 1)
CODEC(rle8_single_compress, rle8_decompress, rle_compress_bounds, "byte", 1)
CODEC(rle8_single_short_compress, rle8_single_short_decompress, rle_compress_bounds, "short", 1)
CODEC(rle8_packed_single_compress, rle8_packed_decompress, rle_compress_bounds, "byte", 1)
CODEC(rle16_sym_compress, rle16_sym_decompress, rle_compress_bounds, "extreme", 2)
CODEC(rle16_sym_short_compress, rle16_sym_short_decompress, rle_compress_bounds, "short", 2)
CODEC(rle16_sym_packed_compress, rle16_sym_packed_decompress, rle_compress_bounds, "extreme", 2)
CODEC(rle16_1symlut_sym_short_compress, rle16_1symlut_sym_short_decompress, rle_compress_bounds, "short", 2)
CODEC(rle16_3symlut_sym_compress, rle16_3symlut_sym_decompress, rle_compress_bounds, "symlut", 2)
CODEC(rle16_3symlut_sym_short_compress, rle16_3symlut_sym_short_decompress, rle_compress_bounds, "short", 2)
CODEC(rle16_7symlut_sym_compress, rle16_7symlut_sym_decompress, rle_compress_bounds, "symlut", 2)
CODEC(rle16_7symlut_sym_short_compress, rle16_7symlut_sym_short_decompress, rle_compress_bounds, "short", 2)
CODEC(rle16_byte_compress, rle16_byte_decompress, rle_compress_bounds, "extreme", 2)
CODEC(rle16_byte_short_compress, rle16_byte_short_decompress, rle_compress_bounds, "short", 2)
CODEC(rle16_byte_packed_compress, rle16_byte_packed_decompress, rle_compress_bounds, "extreme", 2)
CODEC(rle16_1symlut_byte_short_compress, rle16_1symlut_byte_short_decompress, rle_compress_bounds, "short", 2)
CODEC(rle16_1symlut_byte_short_compress_greedy, rle16_1symlut_byte_short_decompress, rle_compress_bounds, "short", 2)
CODEC(rle16_3symlut_byte_compress, rle16_3symlut_byte_decompress, rle_compress_bounds, "symlut", 2)
CODEC(rle16_3symlut_byte_short_compress, rle16_3symlut_byte_short_decompress, rle_compress_bounds, "short", 2)
CODEC(rle16_3symlut_byte_short_compress_greedy, rle16_3symlut_byte_short_decompress, rle_compress_bounds, "short", 2)
CODEC(rle16_7symlut_byte_compress, rle16_7symlut_byte_decompress, rle_compress_bounds, "symlut", 2)
CODEC(rle16_7symlut_byte_short_compress, rle16_7symlut_byte_short_decompress, rle_compress_bounds, "short", 2)
CODEC(rle16_7symlut_byte_short_compress_greedy, rle16_7symlut_byte_short_decompress, rle_compress_bounds, "short", 2)
CODEC(rle24_sym_compress, rle24_sym_decompress, rle_compress_bounds, "odd", 3)
CODEC(rle24_sym_short_compress, rle24_sym_short_decompress, rle_compress_bounds, "short", 3)
CODEC(rle24_sym_packed_compress, rle24_sym_packed_decompress, rle_compress_bounds, "odd", 3)
CODEC(rle24_1symlut_sym_short_compress, rle24_1symlut_sym_short_decompress, rle_compress_bounds, "short", 3)
CODEC(rle24_3symlut_sym_compress, rle24_3symlut_sym_decompress, rle_compress_bounds, "symlut", 3)
CODEC(rle24_3symlut_sym_short_compress, rle24_3symlut_sym_short_decompress, rle_compress_bounds, "short", 3)
CODEC(rle24_7symlut_sym_compress, rle24_7symlut_sym_decompress, rle_compress_bounds, "symlut", 3)
CODEC(rle24_7symlut_sym_short_compress, rle24_7symlut_sym_short_decompress, rle_compress_bounds, "short", 3)
CODEC(rle24_byte_compress, rle24_byte_decompress, rle_compress_bounds, "odd", 3)
CODEC(rle24_byte_short_compress, rle24_byte_short_decompress, rle_compress_bounds, "short", 3)
CODEC(rle24_byte_packed_compress, rle24_byte_packed_decompress, rle_compress_bounds, "odd", 3)
CODEC(rle24_1symlut_byte_short_compress, rle24_1symlut_byte_short_decompress, rle_compress_bounds, "short", 3)
CODEC(rle24_1symlut_byte_short_compress_greedy, rle24_1symlut_byte_short_decompress, rle_compress_bounds, "short", 3)
CODEC(rle24_3symlut_byte_compress, rle24_3symlut_byte_decompress, rle_compress_bounds, "symlut", 3)
CODEC(rle24_3symlut_byte_short_compress, rle24_3symlut_byte_short_decompress, rle_compress_bounds, "short", 3)
CODEC(rle24_3symlut_byte_short_compress_greedy, rle24_3symlut_byte_short_decompress, rle_compress_bounds, "short", 3)
CODEC(rle24_7symlut_byte_compress, rle24_7symlut_byte_decompress, rle_compress_bounds, "symlut", 3)
CODEC(rle24_7symlut_byte_short_compress, rle24_7symlut_byte_short_decompress, rle_compress_bounds, "short", 3)
CODEC(rle24_7symlut_byte_short_compress_greedy, rle24_7symlut_byte_short_decompress, rle_compress_bounds, "short", 3)
CODEC(rle32_sym_compress, rle32_sym_decompress, rle_compress_bounds, "extreme", 4)
CODEC(rle32_sym_short_compress, rle32_sym_short_decompress, rle_compress_bounds, "short", 4)
CODEC(rle32_sym_packed_compress, rle32_sym_packed_decompress, rle_compress_bounds, "extreme", 4)
CODEC(rle32_1symlut_sym_short_compress, rle32_1symlut_sym_short_decompress, rle_compress_bounds, "short", 4)
CODEC(rle32_3symlut_sym_compress, rle32_3symlut_sym_decompress, rle_compress_bounds, "symlut", 4)
CODEC(rle32_3symlut_sym_short_compress, rle32_3symlut_sym_short_decompress, rle_compress_bounds, "short", 4)
CODEC(rle32_7symlut_sym_compress, rle32_7symlut_sym_decompress, rle_compress_bounds, "symlut", 4)
CODEC(rle32_7symlut_sym_short_compress, rle32_7symlut_sym_short_decompress, rle_compress_bounds, "short", 4)
CODEC(rle32_byte_compress, rle32_byte_decompress, rle_compress_bounds, "extreme", 4)
CODEC(rle32_byte_short_compress, rle32_byte_short_decompress, rle_compress_bounds, "short", 4)
CODEC(rle32_byte_packed_compress, rle32_byte_packed_decompress, rle_compress_bounds, "extreme", 4)
CODEC(rle32_1symlut_byte_short_compress, rle32_1symlut_byte_short_decompress, rle_compress_bounds, "short", 4)
CODEC(rle32_1symlut_byte_short_compress_greedy, rle32_1symlut_byte_short_decompress, rle_compress_bounds, "short", 4)
CODEC(rle32_3symlut_byte_compress, rle32_3symlut_byte_decompress, rle_compress_bounds, "symlut", 4)
CODEC(rle32_3symlut_byte_short_compress, rle32_3symlut_byte_short_decompress, rle_compress_bounds, "short", 4)
CODEC(rle32_3symlut_byte_short_compress_greedy, rle32_3symlut_byte_short_decompress, rle_compress_bounds, "short", 4)
CODEC(rle32_7symlut_byte_compress, rle32_7symlut_byte_decompress, rle_compress_bounds, "symlut", 4)
CODEC(rle32_7symlut_byte_short_compress, rle32_7symlut_byte_short_decompress, rle_compress_bounds, "short", 4)
CODEC(rle32_7symlut_byte_short_compress_greedy, rle32_7symlut_byte_short_decompress, rle_compress_bounds, "short", 4)
CODEC(rle48_sym_compress, rle48_sym_decompress, rle_compress_bounds, "odd", 6)
CODEC(rle48_sym_short_compress, rle48_sym_short_decompress, rle_compress_bounds, "short", 6)
CODEC(rle48_sym_packed_compress, rle48_sym_packed_decompress, rle_compress_bounds, "odd", 6)
CODEC(rle48_1symlut_sym_short_compress, rle48_1symlut_sym_short_decompress, rle_compress_bounds, "short", 6)
CODEC(rle48_3symlut_sym_compress, rle48_3symlut_sym_decompress, rle_compress_bounds, "symlut", 6)
CODEC(rle48_3symlut_sym_short_compress, rle48_3symlut_sym_short_decompress, rle_compress_bounds, "short", 6)
CODEC(rle48_7symlut_sym_compress, rle48_7symlut_sym_decompress, rle_compress_bounds, "symlut", 6)
CODEC(rle48_7symlut_sym_short_compress, rle48_7symlut_sym_short_decompress, rle_compress_bounds, "short", 6)
CODEC(rle48_byte_compress, rle48_byte_decompress, rle_compress_bounds, "odd", 6)
CODEC(rle48_byte_short_compress, rle48_byte_short_decompress, rle_compress_bounds, "short", 6)
CODEC(rle48_byte_packed_compress, rle48_byte_packed_decompress, rle_compress_bounds, "odd", 6)
CODEC(rle48_1symlut_byte_short_compress, rle48_1symlut_byte_short_decompress, rle_compress_bounds, "short", 6)
CODEC(rle48_1symlut_byte_short_compress_greedy, rle48_1symlut_byte_short_decompress, rle_compress_bounds, "short", 6)
CODEC(rle48_3symlut_byte_compress, rle48_3symlut_byte_decompress, rle_compress_bounds, "symlut", 6)
CODEC(rle48_3symlut_byte_short_compress, rle48_3symlut_byte_short_decompress, rle_compress_bounds, "short", 6)
CODEC(rle48_3symlut_byte_short_compress_greedy, rle48_3symlut_byte_short_decompress, rle_compress_bounds, "short", 6)
CODEC(rle48_7symlut_byte_compress, rle48_7symlut_byte_decompress, rle_compress_bounds, "symlut", 6)
CODEC(rle48_7symlut_byte_short_compress, rle48_7symlut_byte_short_decompress, rle_compress_bounds, "short", 6)
CODEC(rle48_7symlut_byte_short_compress_greedy, rle48_7symlut_byte_short_decompress, rle_compress_bounds, "short", 6)
CODEC(rle64_sym_compress, rle64_sym_decompress, rle_compress_bounds, "extreme", 8)
CODEC(rle64_sym_short_compress, rle64_sym_short_decompress, rle_compress_bounds, "short", 8)
CODEC(rle64_sym_packed_compress, rle64_sym_packed_decompress, rle_compress_bounds, "extreme", 8)
CODEC(rle64_1symlut_sym_short_compress, rle64_1symlut_sym_short_decompress, rle_compress_bounds, "short", 8)
CODEC(rle64_3symlut_sym_compress, rle64_3symlut_sym_decompress, rle_compress_bounds, "symlut", 8)
CODEC(rle64_3symlut_sym_short_compress, rle64_3symlut_sym_short_decompress, rle_compress_bounds, "short", 8)
CODEC(rle64_7symlut_sym_compress, rle64_7symlut_sym_decompress, rle_compress_bounds, "symlut", 8)
CODEC(rle64_7symlut_sym_short_compress, rle64_7symlut_sym_short_decompress, rle_compress_bounds, "short", 8)
CODEC(rle64_byte_compress, rle64_byte_decompress, rle_compress_bounds, "extreme", 8)
CODEC(rle64_byte_short_compress, rle64_byte_short_decompress, rle_compress_bounds, "short", 8)
CODEC(rle64_byte_packed_compress, rle64_byte_packed_decompress, rle_compress_bounds, "extreme", 8)
CODEC(rle64_1symlut_byte_short_compress, rle64_1symlut_byte_short_decompress, rle_compress_bounds, "short", 8)
CODEC(rle64_1symlut_byte_short_compress_greedy, rle64_1symlut_byte_short_decompress, rle_compress_bounds, "short", 8)
CODEC(rle64_3symlut_byte_compress, rle64_3symlut_byte_decompress, rle_compress_bounds, "symlut", 8)
CODEC(rle64_3symlut_byte_short_compress, rle64_3symlut_byte_short_decompress, rle_compress_bounds, "short", 8)
CODEC(rle64_3symlut_byte_short_compress_greedy, rle64_3symlut_byte_short_decompress, rle_compress_bounds, "short", 8)
CODEC(rle64_7symlut_byte_compress, rle64_7symlut_byte_decompress, rle_compress_bounds, "symlut", 8)
CODEC(rle64_7symlut_byte_short_compress, rle64_7symlut_byte_short_decompress, rle_compress_bounds, "short", 8)
CODEC(rle64_7symlut_byte_short_compress_greedy, rle64_7symlut_byte_short_decompress, rle_compress_bounds, "short", 8)
CODEC(rle128_sym_compress, rle128_sym_decompress, rle_compress_bounds, "wide", 16)
CODEC(rle128_sym_packed_compress, rle128_sym_packed_decompress, rle_compress_bounds, "wide", 16)
CODEC(rle128_byte_compress, rle128_byte_decompress, rle_compress_bounds, "wide", 16)
CODEC(rle128_byte_packed_compress, rle128_byte_packed_decompress, rle_compress_bounds, "wide", 16)
CODEC(rle8_sh_compress, rle8_sh_decompress, rle8_sh_bounds, "huff", 1)
CODEC(rle8_mmtf128_compress, rle8_mmtf128_decompress, rle8_mmtf128_compress_bounds, "mmtf", 1)
CODEC(rle8_low_entropy_compress, rle8_low_entropy_decompress, rle8_low_entropy_compress_bounds, "lowentropy", 1)
CODEC(rle8_low_entropy_compress_only_max_frequency, rle8_low_entropy_decompress, rle8_low_entropy_compress_bounds, "lowentropy", 1)
CODEC(rle8_low_entropy_short_compress, rle8_low_entropy_short_decompress, rle8_low_entropy_short_compress_bounds, "lowentropy", 1)
CODEC(rle8_low_entropy_short_compress_only_max_frequency, rle8_low_entropy_short_decompress, rle8_low_entropy_short_compress_bounds, "lowentropy", 1)
CODEC(mmtf128_encode, mmtf128_decode, mmtf_bounds, "transform", 1)
CODEC(mmtf256_encode, mmtf256_decode, mmtf_bounds, "transform", 1)
CODEC(bitmmtf8_encode, bitmmtf8_decode, bitmmtf_bounds, "transform", 1)
CODEC(bitmmtf16_encode, bitmmtf16_decode, bitmmtf_bounds, "transform", 1)
CODEC(rle8m1_c, rle8m_decompress, rle8m1_b, "sections", 1)
CODEC(rle8m2_c, rle8m_decompress, rle8m2_b, "sections", 1)
CODEC(rle8m3_c, rle8m_decompress, rle8m3_b, "sections", 1)
CODEC(rle8m7_c, rle8m_decompress, rle8m7_b, "sections", 1)
CODEC(rle8m32_c, rle8m_decompress, rle8m32_b, "sections", 1)
