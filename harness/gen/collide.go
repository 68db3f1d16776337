package gen

import (
	"strings"

	"verif/harness/ref"
)

// Twins are strings that common hash functions do not tell apart (of 32 bits,
// and some of 64), most of them only after some beginning.
var Twins = [][2]string{
	{"lgf8wyx", "7q8ayez"}, // fnv32 after ""
	{"fipc8fq", "d06rlho"}, // fnv32a after ""
	{"owuul5l", "g1kkfex"}, // djb2 with xor after ""
	{"ua48tx0", "zbvtugm"}, // one at a time after ""
	{"aemjr6e", "0o0anuw"}, // fnv32 after "ab:"
	{"mky906a", "lj35dml"}, // fnv32a after "ab:"
	{"i40bd59", "c2mb2ib"}, // djb2 with xor after "ab:"
	{"tb27r0g", "p89zk8f"}, // one at a time after "ab:"
	{"qnuvu4j", "iyc3kh0"}, // fnv32 after "urn:ab:"
	{"wc4odbe", "x2dpvom"}, // fnv32a after "urn:ab:"
	{"it6w8e3", "k66w8e3"}, // djb2 with xor after "urn:ab:"
	{"vq85xg9", "rozf5u9"}, // one at a time after "urn:ab:"
	{"7cshxkx", "4v2udxk"}, // fnv32 after "params:scim:api:"
	{"ub75cv7", "hywqzfb"}, // fnv32a after "params:scim:api:"
	{"hqz7q7b", "no25dew"}, // djb2 with xor after "params:scim:api:"
	{"6a8r4au", "2wh54gw"}, // one at a time after "params:scim:api:"
	{"btvpuxl", "ayjsl93"}, // fnv32 after "ietf:params:scim:api:"
	{"dkjsnlq", "5ko6beq"}, // fnv32a after "ietf:params:scim:api:"
	{"it6w8e3", "k66w8e3"}, // djb2 with xor after "ietf:params:scim:api:"
	{"8ibvbfc", "byq7yhy"}, // one at a time after "ietf:params:scim:api:"
	{"kvmq35a", "qd87iyp"}, // fnv32 after "urn:ietf:params:scim:api:"
	{"w28mpr3", "7q0wjwa"}, // fnv32a after "urn:ietf:params:scim:api:"
	{"9b1ho9g", "7djjzqk"}, // djb2 with xor after "urn:ietf:params:scim:api:"
	{"m044l58", "91zd8j6"}, // one at a time after "urn:ietf:params:scim:api:"
	{"c4hh89p", "otrsw8t"}, // crc32 after ""
	{"q2q4m6n", "uxuck4r"}, // crc32 Castagnoli after ""
	{"h94v9wt", "pva8s78"}, // crc32 Koopman after ""
	{"00kx5lf", "dv011gk"}, // sdbm after ""
	{"ucm8ugr", "0bw9ipn"}, // 131 after ""
	{"w6duxwa", "utduz9a"}, // 31 after ""
	{"sm3y1n5", "vvmkn59"}, // 33 after ""
	{"xacaxyz", "xbabxyz"}, // adler32
	{"abcdefg", "gbcdefa"}, // sums
	{"hhhhhhhhhhhhhhhhhhhhhhhh", "lhhhhhhhohhhhhhlihhhhhhh"}, // crc64 ISO
	{"hhhhhhhhhhhhhhhhhhhhhhhh", "ljjinmmmnmmnkhlhhmmkohhh"}, // crc64 ECMA
	{"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"},         // fnv64a
}

// TypeTwins have the hash of a SCIM type.
var TypeTwins = []string{
	"2te4qm", "a52racq", "aasytaa", "akh0ljb", "anyha", "ay7dppi", "b01my8c", "b5d8ocs", "b94jbzo", "barrkz5", "bnj", "c2i", "caz4zpg", "cl20jac", "dfouxoe", "dj91zh6", "drfgpvg", "g6i", "pc0am", "pc4am", "u0rfwm",
}

// TwinTexts lists pairs of texts for a mode, with twins in their parts.
func TwinTexts(m ref.Mode) (out [][2]string) {
	long := strings.Repeat("a", 300)
	forms := []string{"urn:ab:@", "urn:ab:@%4F", "URN:AB:@%AF" + long, "urn:@:a", "urn:ab:@%"}
	switch m {
	case ref.M7643:
		const b = "urn:ietf:params:scim:api:"
		forms = []string{b + "@", b + "@:%4F", b + "n:@", b + "@:@" + long, b + "n:@%", "urn:ietf:params:scim:@:n"}
	case ref.M8141:
		forms = append(forms, "urn:ab:b?+@", "urn:ab:b?=@", "urn:ab:b#@", "urn:ab:@?+@?=@#@", "urn:ab:@%AF?=%4F#")
	}
	for _, p := range Twins {
		for _, f := range forms {
			if m == ref.M7643 && strings.Contains(p[0], "-") && !strings.Contains(f, "n:@") {
				continue
			}
			out = append(out, [2]string{strings.ReplaceAll(f, "@", p[0]), strings.ReplaceAll(f, "@", p[1])})
		}
	}
	return
}
