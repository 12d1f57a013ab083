------------------------------ MODULE FieldVals ------------------------------
(* Generated by tools/mkvals.py: concrete keys and values of every field, as   *)
(* <<map, field, keydata, value>>; used by the design models.                   *)
EXTENDS Psbt
FV == {
  <<"g", "txver", "", "03000000">>,
  <<"g", "txver", "", "02000000">>,
  <<"g", "fallback", "", "aa7b9114">>,
  <<"g", "fallback", "", "00000000">>,
  <<"g", "mod", "", "06">>,
  <<"g", "mod", "", "00">>,
  <<"g", "xpub", "043587cf0000000000000000005340d438dd04202dac6c596390c4747a958db82889cd8cabad18b6a7fb4711c60253dee90bdff9eed793c398f679c13325a5e1ae7b5db2b6d0a2f8cb05c9ad2d49", "0ca97ffbf8c9f1bd0000000034707c2c">>,
  <<"g", "xpub", "043587cf0000000000000000005340d438dd04202dac6c596390c4747a958db82889cd8cabad18b6a7fb4711c60253dee90bdff9eed793c398f679c13325a5e1ae7b5db2b6d0a2f8cb05c9ad2d49", "00000000">>,
  <<"g", "xpub", "043587cf0156c4fac300000001eae07194613eaed7977e6e063d457aff331c94f6683da13906cbd420958f4951028b6971f255012f2d5d89d1f771640c876566314b160ee149cb6f014803792694", "29bf1d97">>,
  <<"g", "xpub", "043587cf0156c4fac300000001eae07194613eaed7977e6e063d457aff331c94f6683da13906cbd420958f4951028b6971f255012f2d5d89d1f771640c876566314b160ee149cb6f014803792694", "00000000">>,
  <<"g", "prop", "01a8c3300e", "">>,
  <<"g", "prop", "01a8c3300e", "7777">>,
  <<"g", "prop", "043c397a2d146f83", "">>,
  <<"g", "prop", "043c397a2d146f83", "7777">>,
  <<"g", "unk", "81a7fe", "f44d3effb419bb638a181f735b0e1fb861dec2">>,
  <<"g", "unk", "81a7fe", "7777">>,
  <<"g", "unk", "c12ea019dba0", "99982f440d2ac6">>,
  <<"g", "unk", "c12ea019dba0", "7777">>,
  <<"i", "sequence", "", "feffffff">>,
  <<"i", "sequence", "", "00000000">>,
  <<"i", "mintime", "", "0065cd1d">>,
  <<"i", "mintime", "", "a88acb97">>,
  <<"i", "minheight", "", "ff64cd1d">>,
  <<"i", "minheight", "", "00000000">>,
  <<"i", "nwutxo", "", "020000000101edf289a03cf43a6173d1e2dac306a9d6a3fc44fe78b0d830745b6e9e0eadb5000000000001000000016d3d039c57198623129f59966d0a28907673f60883ead37b5233b3ffffffff">>,
  <<"i", "nwutxo", "", "020000000001013c6aec9a9df9a26c06653d86d56d168a0049a916a8f8a4c79b4f1e6c65953b0e0200000000feffffff01ffffffffffffffff000302192201d00189613cdf80">>,
  <<"i", "wutxo", "", "ffffffffffffffff1976a914a9157a2a13f2c028fd658cf42719e8d60653ee4d88ac">>,
  <<"i", "wutxo", "", "000000000000000000">>,
  <<"i", "psig", "021a26852c99594d1b737c6f9d3f293e7585377f205b9570f18c410f07785fcb45", "304402202f05056eb1372928e3d35f530d4437e22c6f9ddd6cdf9ad563d0e4123c62a1af02205b88f06ebac335816d2dc807443b1f39c8e9487d4cf11ec7ddac453a684438dc02">>,
  <<"i", "psig", "021a26852c99594d1b737c6f9d3f293e7585377f205b9570f18c410f07785fcb45", "3045022100efb14626eabc65f7336f582c9aaae2d14101835156e99c437e81f43e671a967d02202e3b71df52702559fcc3684914d79eec4bfc17d884b2fa178b2a7669a0d0c74981">>,
  <<"i", "psig", "03181b5d93a1130d0cb87f3ed7efa7ca3517df945726f06d6288f50361c6d5b781", "304502210082d4d7abe8c24122510b9484271d8212bb97f016f85867028c4bd8c99780796402200450f3d0e0734176ecfe3ff800340b0968c3447c31b744b2a26c5f75308e3d3a03">>,
  <<"i", "psig", "03181b5d93a1130d0cb87f3ed7efa7ca3517df945726f06d6288f50361c6d5b781", "304402200ce7a09cbaa36230d3989d4b3bf56755dffc0e33132decfa063e81e37d8b9ccf022019a1c4df65360a285494e6164df5da5453e62b719f93af3c89af1502a5058b0d01">>,
  <<"i", "sighash", "", "83000000">>,
  <<"i", "sighash", "", "00000000">>,
  <<"i", "redeem", "", "0020d3f5af973fb71a9b804e4e6f3dbcb6600112977674287365a240145082eb599a">>,
  <<"i", "redeem", "", "">>,
  <<"i", "wscript", "", "76a9146ac4817e9923494e2a95d1c6e13a53bc2018d7c188ac">>,
  <<"i", "wscript", "", "">>,
  <<"i", "bip32", "021a26852c99594d1b737c6f9d3f293e7585377f205b9570f18c410f07785fcb45", "ad82f9c6ab830fe9e199cca9e8d356b1">>,
  <<"i", "bip32", "021a26852c99594d1b737c6f9d3f293e7585377f205b9570f18c410f07785fcb45", "00000000">>,
  <<"i", "bip32", "025f21f64b2b06f5da73f3898b4327bcf1049f4548afc8f672c1234074e4d15429", "345e529101000000">>,
  <<"i", "bip32", "025f21f64b2b06f5da73f3898b4327bcf1049f4548afc8f672c1234074e4d15429", "00000000">>,
  <<"i", "fsig", "", "dc">>,
  <<"i", "fsig", "", "">>,
  <<"i", "fwit", "", "00">>,
  <<"i", "fwit", "", "0104cc62b70a">>,
  <<"i", "ripemd", "4c78073ec459c5508890b8076482e8cce1a6d75c", "8d682a6b1fe147aea39e5cd2ace8844f38">>,
  <<"i", "ripemd", "9ba58a2b27532e1a96dab009a9b3f6aea62fcf02", "ea7de2209ab2f932ab6d591c0b">>,
  <<"i", "sha256", "90289789e5307c3e95d3fb73c2c463d1f0e2b65e6f35fe96daf622899e7efdc3", "fd6c11ef97674d82ecd83d">>,
  <<"i", "sha256", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "">>,
  <<"i", "hash160", "5e5c2910c4d9c32995bbb2a737e3bb20e9e25389", "bd05ab1d3814f10e33293dfad6">>,
  <<"i", "hash160", "f2dac917d48fc9f7965db05c43f861220ea3f97d", "2e8431ec24cee9f5313ae26e">>,
  <<"i", "hash256", "4ded9e52db53ce8ff25034bbfab8d791c06f9c33704d4a0fe6dcd08167cea3d0", "8a32ccf4bfb851fa35ad">>,
  <<"i", "hash256", "71244df0197e7daa91a4d5a9384e6ab264065c7a652918191f1716db64a99c9e", "486895e647f4fab4527a61fb89e9cf1a">>,
  <<"i", "tapkeysig", "", "1d5ad52e704b2058317b28b91ff26fadeacef30ba9c8faa4df8e8d2f6fe4372a6c817924c75c8e38520681232546fa8652e3e1b692a91f9e3a4709da9faf765503">>,
  <<"i", "tapkeysig", "", "5da70e52ea26874f88c04281355c8f72f64678e1b9b2c5b8b43a6690f521800d3d041675e5eeda4002f614496c206491c6d267fcf16d0b23a19b9c47e60f35b181">>,
  <<"i", "tapscriptsig", "ed2277b839478bfdda92c7649f97b4848e24e6735ec80b6405616bd7a02e80a54341ddbabfe3dec3ea87b9341c0783e13aba5c12385fb4b4095b6446ab378eaf", "7a78b8de91ab3e26967f3812a897bc7b220b7428457419615cbd81dab61f86a8dc45e8dab91f82de84773e3856cab40413e1f2b11bb71aaea86eb64e03365f95">>,
  <<"i", "tapscriptsig", "ed2277b839478bfdda92c7649f97b4848e24e6735ec80b6405616bd7a02e80a58f17330efc39d02f10874dad5cc4b645927682a05376684d52c94708c1763182", "d1691ac3003baf1c8309cb7afe6bba2b8d8544427951b7bdcd3bc4f049c4ba39fe49aa7d89bb07783ee6302a68464c8f9367c4fc25046f1fe3b31f943543ca6802">>,
  <<"i", "tapleaf", "c01a26852c99594d1b737c6f9d3f293e7585377f205b9570f18c410f07785fcb45e722f70a16ba293be484be5181ce8418b62a32e694ce52c17abd6051849da3637aff3d74e8c9bc2d65cb635c8d71ce8a509eb9895b52a5465475740ac3d0c753", "b210fafe7f8f7281c0">>,
  <<"i", "tapleaf", "c11a26852c99594d1b737c6f9d3f293e7585377f205b9570f18c410f07785fcb4531ac6ae954b9117fbaef9ebbbf8c5a157bfba60afcbca1e879efcac5f5e86fb4", "ca15ddb31b762ec0">>,
  <<"i", "tapbip32", "181b5d93a1130d0cb87f3ed7efa7ca3517df945726f06d6288f50361c6d5b781", "023539c4d67ab0e4c93d672889ff423dcb9e2875408c841456d75f5f432d4ec637daadcaf503ec171f3dd578c6bc2964701e2d4006804776ba8db15c41f8af015818811a5855246573">>,
  <<"i", "tapbip32", "181b5d93a1130d0cb87f3ed7efa7ca3517df945726f06d6288f50361c6d5b781", "00a51b8814bb145f56">>,
  <<"i", "tapbip32", "5f21f64b2b06f5da73f3898b4327bcf1049f4548afc8f672c1234074e4d15429", "010b7a641f8b0a8746edd0b3379ba8bd7899bcd3728d1da8ee91906fce740700aa0bfd4268">>,
  <<"i", "tapbip32", "5f21f64b2b06f5da73f3898b4327bcf1049f4548afc8f672c1234074e4d15429", "00be446541">>,
  <<"i", "tapinternal", "", "66e87015fc70f4366622a95e8292685472526aadc8b475855f2e0c52c0c01b7a">>,
  <<"i", "tapinternal", "", "5f21f64b2b06f5da73f3898b4327bcf1049f4548afc8f672c1234074e4d15429">>,
  <<"i", "tapmerkle", "", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff">>,
  <<"i", "tapmerkle", "", "0000000000000000000000000000000000000000000000000000000000000000">>,
  <<"i", "prop", "0000", "">>,
  <<"i", "prop", "0000", "7777">>,
  <<"i", "prop", "04068d56e771", "">>,
  <<"i", "prop", "04068d56e771", "7777">>,
  <<"i", "unk", "71c97b504ead", "">>,
  <<"i", "unk", "71c97b504ead", "7777">>,
  <<"i", "unk", "d76b", "28782649c89f07e3">>,
  <<"i", "unk", "d76b", "7777">>,
  <<"o", "redeem", "", "002e9eacb791904fb736a662fc199898ef73a992">>,
  <<"o", "redeem", "", "">>,
  <<"o", "wscript", "", "76a914a92578452f0d4a47c4528b067f70ab7de4a39a5c88ac">>,
  <<"o", "wscript", "", "">>,
  <<"o", "bip32", "021a26852c99594d1b737c6f9d3f293e7585377f205b9570f18c410f07785fcb45", "db6ab40b28734ba8">>,
  <<"o", "bip32", "021a26852c99594d1b737c6f9d3f293e7585377f205b9570f18c410f07785fcb45", "00000000">>,
  <<"o", "bip32", "03ed2277b839478bfdda92c7649f97b4848e24e6735ec80b6405616bd7a02e80a5", "f49f57e5010000000000000001000000">>,
  <<"o", "bip32", "03ed2277b839478bfdda92c7649f97b4848e24e6735ec80b6405616bd7a02e80a5", "00000000">>,
  <<"o", "tapinternal", "", "181b5d93a1130d0cb87f3ed7efa7ca3517df945726f06d6288f50361c6d5b781">>,
  <<"o", "tapinternal", "", "66e87015fc70f4366622a95e8292685472526aadc8b475855f2e0c52c0c01b7a">>,
  <<"o", "taptree", "", "02c0039fc4c702c00ce581b5770ee70fb2a5179ae603c0067f3aa7ded29403c001f603c007b2504b4212b5e203c003fb676e">>,
  <<"o", "taptree", "", "01c009d0ae79b26e35caaa9c01c00781710edc435c7b">>,
  <<"o", "tapbip32", "dac6772427050c90155d3fbf0b1f05137d4fafd97e9a8cac35fd5ce2c8ad47c8", "011ce47425e7b45bec4a8873da9c3f4b0b6d33fba01392dd81bb45e350a8d09e13dbff49bb">>,
  <<"o", "tapbip32", "dac6772427050c90155d3fbf0b1f05137d4fafd97e9a8cac35fd5ce2c8ad47c8", "02cd52895e01adbf70759983db25fa9c22e5230d28e43127b1f35fc92de6b8f439cd52895e01adbf70759983db25fa9c22e5230d28e43127b1f35fc92de6b8f4395c751931">>,
  <<"o", "tapbip32", "e8fe784db4b6936d0b7ad7f44968c2178fe11ce161ffef1c38683f2d15058030", "00b23763e50100000000000000">>,
  <<"o", "tapbip32", "e8fe784db4b6936d0b7ad7f44968c2178fe11ce161ffef1c38683f2d15058030", "01b496118a9bdca12006ba076bbf1c9fb8345572b4bb1c0535175f39c71f1e0fe678a30a90">>,
  <<"o", "prop", "033cc30a945a5a", "">>,
  <<"o", "prop", "033cc30a945a5a", "7777">>,
  <<"o", "prop", "04bf051509eb012a", "">>,
  <<"o", "prop", "04bf051509eb012a", "7777">>,
  <<"o", "unk", "0f", "541efee7bfed7284ff5bfd40ea51cc0fe29be3">>,
  <<"o", "unk", "0f", "">>,
  <<"o", "unk", "1b4767", "9317a830ca753d2f1d8fe61880ecac">>,
  <<"o", "unk", "1b4767", "7777">>,
  <<"g", "ecdh", "03e8fe784db4b6936d0b7ad7f44968c2178fe11ce161ffef1c38683f2d15058030", "02dac6772427050c90155d3fbf0b1f05137d4fafd97e9a8cac35fd5ce2c8ad47c8">>,
  <<"g", "ecdh", "03e8fe784db4b6936d0b7ad7f44968c2178fe11ce161ffef1c38683f2d15058030", "031717fe446421c2caddee191e1f3de22754f51d047680bd074e7eb2b6da3c08f9">>,
  <<"g", "ecdh", "03ed2277b839478bfdda92c7649f97b4848e24e6735ec80b6405616bd7a02e80a5", "031717fe446421c2caddee191e1f3de22754f51d047680bd074e7eb2b6da3c08f9">>,
  <<"g", "ecdh", "03ed2277b839478bfdda92c7649f97b4848e24e6735ec80b6405616bd7a02e80a5", "02dac6772427050c90155d3fbf0b1f05137d4fafd97e9a8cac35fd5ce2c8ad47c8">>,
  <<"g", "dleq", "02dac6772427050c90155d3fbf0b1f05137d4fafd97e9a8cac35fd5ce2c8ad47c8", "05ae97845c107007e99b44053bf324e97c7892728b813f27917e98818ead4d96773eb4d3cabe13559e941ad8b4c04a53d93d5ec312dadf74d72469636df0ebf6">>,
  <<"g", "dleq", "02dac6772427050c90155d3fbf0b1f05137d4fafd97e9a8cac35fd5ce2c8ad47c8", "00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000">>,
  <<"g", "dleq", "03e8fe784db4b6936d0b7ad7f44968c2178fe11ce161ffef1c38683f2d15058030", "b4377558b02d4bbd7fbe77bc743b70f027b8be86d49b78ed14457c43554999e45b74d395029cf34ba6d2293880ee6ef17764e293f45e63c345ba6e2bc1b6d41a">>,
  <<"g", "dleq", "03e8fe784db4b6936d0b7ad7f44968c2178fe11ce161ffef1c38683f2d15058030", "00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000">>,
  <<"i", "ecdh", "031717fe446421c2caddee191e1f3de22754f51d047680bd074e7eb2b6da3c08f9", "03181b5d93a1130d0cb87f3ed7efa7ca3517df945726f06d6288f50361c6d5b781">>,
  <<"i", "ecdh", "031717fe446421c2caddee191e1f3de22754f51d047680bd074e7eb2b6da3c08f9", "025f21f64b2b06f5da73f3898b4327bcf1049f4548afc8f672c1234074e4d15429">>,
  <<"i", "ecdh", "03ed2277b839478bfdda92c7649f97b4848e24e6735ec80b6405616bd7a02e80a5", "0366e87015fc70f4366622a95e8292685472526aadc8b475855f2e0c52c0c01b7a">>,
  <<"i", "ecdh", "03ed2277b839478bfdda92c7649f97b4848e24e6735ec80b6405616bd7a02e80a5", "03e82bf127b7856e04d3be6a0162923116ebd7136ca041ccde20213e07c8517255">>,
  <<"i", "dleq", "031717fe446421c2caddee191e1f3de22754f51d047680bd074e7eb2b6da3c08f9", "8ae8d11318c3a15351fc81fe64bf6f51a55f1f3b8676a14e1e855954a40f6f2bab0ad7b7713c473ff4645366d824d4f4e318291f8639ef7e7962fa10b08cb630">>,
  <<"i", "dleq", "031717fe446421c2caddee191e1f3de22754f51d047680bd074e7eb2b6da3c08f9", "00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000">>,
  <<"i", "dleq", "0366e87015fc70f4366622a95e8292685472526aadc8b475855f2e0c52c0c01b7a", "fc9751a3d1f4760e0a238dc083446c8e97b543a4d896059fec126ece0a44fd0365128957e1f5f922e54c8ff748a9f0dcb4265e8f438b4f9c46672cabb6dea8b8">>,
  <<"i", "dleq", "0366e87015fc70f4366622a95e8292685472526aadc8b475855f2e0c52c0c01b7a", "00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000">>,
  <<"o", "spinfo", "", "36d428abe1a063753dbe46049a1b8348a9b17554e367749c692956ea7ccff4705f38599826359380bb8e7f8b147d70f89476f5dc914b02598e33b43670b3234afe19">>,
  <<"o", "spinfo", "", "000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000">>,
  <<"o", "splabel", "", "00000080">>,
  <<"o", "splabel", "", "00000000">>
}
FieldsOf(m) == {e[2] : e \in {x \in FV : x[1] = m}}
EntriesOf(m, f) == {<<e[2], e[3], e[4]>> : e \in {x \in FV : x[1] = m /\ x[2] = f}}
(* What one participant may know of a field: at most one value for each key *)
Know(m, f) == {S \in SUBSET EntriesOf(m, f) : Cardinality(Keys(S)) = Cardinality(S)}
==============================================================================
