package main

import (
	"encoding/binary"
	"encoding/hex"
	"math/big"
)

// A fixed key on the SM2 curve and messages M (as eight octets) for which e = SM3(Z_A || M), with the default
// id, has two or more leading or trailing zero octets. They were found by search, once; the first ones have
// three or four zero octets. What signing and verifying must do with them is the specification's matter.
const edgeKeyHex = "128B2FA8BD433C6C068C8D803DFF79792A519A55171B1B650C23661D15897263"

var edgeMessages = []uint64{
	0x85b5644d,
	0x208ed0ce3,
	0x9338879a,
	0x124cae532,
	0x18054c448,
	0x91dbd6,
	0x100a24020,
	0x2828df0fd,
	0x182c35538,
	0x283c876a0,
	0x101d8f280,
	0xa7d8790,
	0x91636520,
	0x91f8c930,
	0x97cdd2b0,
	0x219af6330,
	0x77dd,
	0xf88a,
	0x26ae4,
	0x4ab23,
	0x557c0,
	0x272c4,
	0x29a58,
	0x31d70,
	0x3368b,
	0x44692,
	0x4a93a,
}

func edgeKey() *Key {
	b, _ := hex.DecodeString(edgeKeyHex)
	return keyOf(0, new(big.Int).SetBytes(b))
}

func edgeMessage(m uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, m)
	return b
}
