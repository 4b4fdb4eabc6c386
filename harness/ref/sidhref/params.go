package sidhref

// Parameter sets of the SIKE specification, as integers. They were checked
// against the known-answer tests of the NIST submission.
var (
	P434 = mk(434, 216, 137, 16, [6][2]string{
		{"3ccfc5e1f050030363e6920a0f7a4c6c71e63de63a0e6475af621995705f7c84500cb2bb61e950e19eab8661d25c4a50ed279646cb48", "1ad1c1cae7840edda6d8a924520f60e573d3b9dfac6d189941cb22326d284a8816cc4249410fe80d68047d823c97d705246f869e3ea50"},
		{"c7461738340efcf09ce388f666eb38f7f3afd42dc0b664d9f461f31aa2edc6b4ab71bd42f4d7c058e13f64b237ef7ddd2abc0deb0c6c", "25de37157f50d75d320dd0682ab4a67e471586fbc2d31aa32e6957fa2b2614c4cd40a1e27283eaaf4272ae517847197432e2d61c85f5"},
		{"f37ab34ba0cead94f43cdc50de06ad19c67ce4928346e829cb92580da84d7c36506a2516696bbe3aeb523ad7172a6d239513c5fd2516", "196ca2ed06a657e90a73543f3902c208f410895b49cf84cd89be9ed6e4ee7e8df90b05f3fdb8bdfe489d1b3558e987013f9806036c5ac"},
		{"8664865ea7d816f03b31e223c26d406a2c6cd0c3d667466056aae85895ec37368bfc009dfafcb3d97e639f65e9e45f46573b0637b7a9", "0"},
		{"12e84d7652558e694bf84c1fbdaaf99b83b4266c32ec65b10457bcaf94c63eb063681e8b1e7398c0b241c19b9665fdb9e1406da3d3846", "0"},
		{"1cd28597256d4ffe7e002e87870752a8f8a64a1cc78b5a2122074783f51b4fde90e89c48ed91a8f4a0ccbacbfa7f51a89ce518a52b76c", "147073290d78dd0cc8420b1188187d1a49dbfa24f26aad46b2d9bb547dbb6f63a760ecb0c2b20be52fb77bd2776c3d14bcbc404736ae4"}})
	P503 = mk(503, 250, 159, 24, [6][2]string{
		{"2ed31a03825fa14bc1d92c503c061d843223e611a92d7c5fbec0f2c915ee7eee73374df6a1161ea00cdcb786155e21fd38220c3772ce670bc68274b851678", "1ee4e4e9448fbbab4b5baef280a99b7bf86a1ce05d55bd603c3ba9d7c08fd8de7968b49a78851ffbc6d0a17cb2fa1b57f3babef87720dd9a489b5581f915d2"},
		{"325cf6a8e2c6183a8b9932198039a7f965ba8587b67925d08d809dbf9a69de1b621f7f134fa2dab82ff5a2615f92cc71419fffaaf86a290d604ab167616461", "3e7b0494c8e60a8b72308ae09ed34845b34ea0911e356b77a11872cf7feeff745d98d0624097bc1ad7cd2adf7ffc2c1aa5ba3c6684b964fa555a0715e57db1"},
		{"3d24cf1f347f1da54c1696442e6afc192cee5e320905e0eab3c9d3fb595ca26c154f39427a0416a9f36337354cf1e6e5aedd73df80c710026d49550ac8ce9f", "6869ea28e4cee05dcee8b08acd59775d03daa0dc8b094c85156c212c23c72cb2ab2d2d90d46375aa6d66e58e44f8f219431d3006fded7993f51649c029498"},
		{"32d03fd1e99ed0cb05c0707af74617cbea5ac6b75905b4b54b1b0c2d73697840155e7b1005efb02b5d02797a8b66a5d258c76a3c9ef745cece11e9a178badf", "0"},
		{"39014a74763076675d24cf3fa28318dac75bcb04e54addc6494693f72ebb7da7dc6a3bbcd188dad5bece9d6bb4abdd05db38c5fbe52d985dcaf74422c24d53", "0"},
		{"c1465fd048ffb8bf2158ed57f0cfff0c4d5a4397c7542d722567700fdbb8b2825cab4b725764f5f528294b7f95c17d560e25660ad3d07ab011d95b2cb522", "288165466888be1e78db339034e2b8c7bdf0483bfa7ab943dfa05b2d1712317916690f5e713740e7c7d4838296e67357dc34e3460a95c330d5169721981758"}})
	P751 = mk(751, 372, 239, 32, [6][2]string{
		{"4514f8cc94b140f24874f8b87281fa6004ca5b3637c68ac0c0bdb29838051f385fbbcc300bbb24bfbbf6710d7dc8b29acb81e429bd1bd5629ad0ecad7c90622f6bb801d0337ee6bc78a7f12fdcb09decfae8bfd643c89c3bac1d87f8b6fa", "158abf500b5914b3a96ced5fdb37d6dd925f2d6e4f7fea3cc16e1085754077737ea6f8cc74938d971da289dcf2435bcac1897d2627693f9bb167dc01be34ac494c60b8a0f65a28d7a31ea0d54640653a8099ce5a84e4f0168d818af02041"},
		{"1723d2bfa01a78bf4e39e3a333f8a7e0b415a17f208d3419e7591d59d8abdb7ee6d2b2dfcb21ac29a40f837983c0f057fd041ad93237704f1597d87f074f682961a38b5489d1019924f8a0ef5e4f1b2e64a7ba536e219f5090f76276290e", "2569d7eafb6c60b244ef49e05b5e23f73c4f44169a7e02405e90ceb680cb0756054ac0e3dce95e2950334262cc973235c2f87d89500bcd465b078bd0debdf322a2f86aedfdcfee65c09377efba0c5384dd837bedb710209fbc8ddb8c35c7"},
		{"6066e07f3c0d964e8bc963519fac8397df477aea9a067f3be343bc53c883af29ccf008e5a30719a29357a8c33eb3600cd078af1c40ed5792763a4d213ebde44cc623195c387e0201e7231c529a15af5ab743ee9e7c9c37af3051167525bb", "50e30c2c06494249bc4a144eb5f31212bd05a2af0cb3064c322fc3604fc5f5fe3a08fb3a02b05a48557e15c992254ffc8910b72b8e1328b4893cdcfbfc003878881ce390d909e39f83c5006e0ae979587775443483d13c65b107fada5165"},
		{"605d4697a245c394b98024a5554746dc12ff56d0c6f15d2f48123b6d9c498eee98e8f7cd6e216e2f1ff7ce0c969cca29caa2faa57174ef985ac0a504260018760e9fdf67467e20c13982ff5b49b8beab05f6023af873f827400e453432fe", "0"},
		{"5bf9544781803cbd7e0ea8b96d934c5cbca970f9cc327a0a7e4dad931ec29baa8a854b8a9fde5409af96c5426fa375d99c68e9ae714172d7f04502d45307fa4839f39a28338bbafd54a461a535408367d5132e6aa0d3da6973360f8cd0f1", "0"},
		{"55e5124a05d4809585f67fe9ea1f02a06cd411f38588bb631bf789c3f98d1c3325843bb53d9b011d8bd1f682c0e4d8a5e723364364e40dad1b7a476716ac7d1ba705ccdd680bfd4fe4739cc21a9a59ed544b82566bf633e8950186a79fe3", "5ac57eafd6cc7569e8b53a148721953262c5b404c143380adcc184b6c21f0cafe095b7e9c79ca88791f9a72f1b2f3121829b2622515b694a16875ed637f421b539e66f2fef1ce8dcefc8aea608055e9c44077266ab64611bf851ba06c821"}})
)

// Sets are all of them.
var Sets = []*Set{P434, P503, P751}

// ByName finds a set.
func ByName(n int) *Set {
	for _, s := range Sets {
		if s.Name == n {
			return s
		}
	}
	return nil
}
