package main

// Multiples [k]G of the SM2 base point with leading zero bits in x (zx) or y (zy); found by tools/shortpoints.
var shortPoints = []struct {
	k      string
	zx, zy int
}{
	{"5eed000000000000000012345678900000000000000000000083f3", 2, 18},
	{"5eed00000000000000001234567890000000000000000000009f47", 16, 0},
	{"5eed00000000000000001234567890000000000000000000018e14", 0, 20},
	{"5eed00000000000000001234567890000000000000000000027b98", 0, 17},
	{"5eed0000000000000000123456789000000000000000000002841d", 16, 0},
	{"5eed000000000000000012345678900000000000000000000381f2", 19, 4},
	{"5eed0000000000000000123456789000000000000000000003a409", 0, 19},
	{"5eed0000000000000000123456789000000000000000000003abc2", 2, 16},
	{"5eed0000000000000000123456789000000000000000000003f910", 16, 0},
	{"5eed000000000000000012345678900000000000000000000451c6", 0, 18},
	{"5eed00000000000000001234567890000000000000000000045aa2", 2, 16},
	{"5eed0000000000000000123456789000000000000000000004e2ae", 0, 16},
	{"5eed000000000000000012345678900000000000000000000508cd", 16, 2},
	{"5eed00000000000000001234567890000000000000000000058c38", 18, 1},
	{"5eed00000000000000001234567890000000000000000000059b03", 16, 0},
	{"5eed0000000000000000123456789000000000000000000005d89a", 16, 0},
	{"5eed0000000000000000123456789000000000000000000008dd0e", 2, 24},
	{"5eed000000000000000012345678900000000000000000007ff317", 0, 27},
	{"5eed00000000000000001234567890000000000000000002699d1a", 0, 25},
	{"5eed00000000000000001234567890000000000000000003824020", 1, 24},
	{"5eed00000000000000001234567890000000000000000003c88019", 1, 25},
	{"5eed00000000000000001234567890000000000000000003cb93e3", 26, 0},
	{"5eed00000000000000001234567890000000000000000004126160", 2, 25},
	{"5eee000000000000000012345678900000000000000000001df7ea", 2, 24},
	{"5eee00000000000000001234567890000000000000000002653bf8", 0, 24},
	{"5eee000000000000000012345678900000000000000000032258fb", 25, 2},
	{"5eee00000000000000001234567890000000000000000003c443e4", 25, 0},
	{"5eee00000000000000001234567890000000000000000003fde6fe", 24, 5},
	{"5eef00000000000000001234567890000000000000000000b07a43", 24, 4},
	{"5eef0000000000000000123456789000000000000000000245e12f", 24, 0},
	{"5eef000000000000000012345678900000000000000000028b575d", 27, 2},
	{"5eef0000000000000000123456789000000000000000000291b217", 27, 1},
}
