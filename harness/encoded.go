package main

// Strings encoded by another implementation (the python codecs).
var encoded = []struct{ charset, text, hex string }{
	{"iso-8859-1", "é", "e9"},
	{"iso-8859-1", "ñandú", "f1616e64fa"},
	{"iso-8859-1", "Ärger ß", "c47267657220df"},
	{"iso-8859-1", "¿qué?", "bf7175e93f"},
	{"iso-8859-1", "naïve|x", "6e61ef76657c78"},
	{"iso-8859-1", "a,b;\"c\"", "612c623b226322"},
	{"windows-1252", "é", "e9"},
	{"windows-1252", "ñandú", "f1616e64fa"},
	{"windows-1252", "Ärger ß", "c47267657220df"},
	{"windows-1252", "¿qué?", "bf7175e93f"},
	{"windows-1252", "naïve|x", "6e61ef76657c78"},
	{"windows-1252", "a,b;\"c\"", "612c623b226322"},
	{"windows-1252", "€100", "80313030"},
	{"windows-1252", "“quoted”", "9371756f74656494"},
	{"shift_jis", "日本", "93fa967b"},
	{"shift_jis", "東京都", "938c8b9e9373"},
	{"shift_jis", "テスト", "836583588367"},
	{"shift_jis", "ｱｲｳ", "b1b2b3"},
	{"shift_jis", "ソ能表", "835c945c955c"},
	{"shift_jis", "русский", "8482848584838483847b8479847a"},
	{"shift_jis", "Привет, мир", "8450848284798472847584842c20847d84798482"},
	{"shift_jis", "中文", "928695b6"},
	{"shift_jis", "a,b;\"c\"", "612c623b226322"},
	{"shift_jis", "“quoted”", "816771756f7465648168"},
	{"euc-jp", "é", "8fabb1"},
	{"euc-jp", "ñandú", "8fabd0616e648fabe2"},
	{"euc-jp", "Ärger ß", "8faaa372676572208fa9ce"},
	{"euc-jp", "¿qué?", "8fa2c471758fabb13f"},
	{"euc-jp", "日本", "c6fccbdc"},
	{"euc-jp", "東京都", "c5ecb5fec5d4"},
	{"euc-jp", "テスト", "a5c6a5b9a5c8"},
	{"euc-jp", "ｱｲｳ", "8eb18eb28eb3"},
	{"euc-jp", "ソ能表", "a5bdc7bdc9bd"},
	{"euc-jp", "русский", "a7e2a7e5a7e3a7e3a7dca7daa7db"},
	{"euc-jp", "Привет, мир", "a7b1a7e2a7daa7d3a7d6a7e42c20a7dea7daa7e2"},
	{"euc-jp", "中文", "c3e6cab8"},
	{"euc-jp", "naïve|x", "6e618fabc176657c78"},
	{"euc-jp", "a,b;\"c\"", "612c623b226322"},
	{"euc-jp", "“quoted”", "a1c871756f746564a1c9"},
	{"iso-2022-jp", "日本", "1b2442467c4b5c1b2842"},
	{"iso-2022-jp", "東京都", "1b2442456c357e45541b2842"},
	{"iso-2022-jp", "テスト", "1b24422546253925481b2842"},
	{"iso-2022-jp", "ソ能表", "1b2442253d473d493d1b2842"},
	{"iso-2022-jp", "русский", "1b24422762276527632763275c275a275b1b2842"},
	{"iso-2022-jp", "Привет, мир", "1b244227312762275a2753275627641b28422c201b2442275e275a27621b2842"},
	{"iso-2022-jp", "中文", "1b244243664a381b2842"},
	{"iso-2022-jp", "a,b;\"c\"", "612c623b226322"},
	{"iso-2022-jp", "“quoted”", "1b244221481b284271756f7465641b244221491b2842"},
	{"koi8-r", "русский", "d2d5d3d3cbc9ca"},
	{"koi8-r", "Привет, мир", "f0d2c9d7c5d42c20cdc9d2"},
	{"koi8-r", "a,b;\"c\"", "612c623b226322"},
	{"windows-1251", "русский", "f0f3f1f1eae8e9"},
	{"windows-1251", "Привет, мир", "cff0e8e2e5f22c20ece8f0"},
	{"windows-1251", "a,b;\"c\"", "612c623b226322"},
	{"windows-1251", "€100", "88313030"},
	{"windows-1251", "“quoted”", "9371756f74656494"},
	{"euc-kr", "日本", "eceddce2"},
	{"euc-kr", "東京都", "d4d4ccc8d4b4"},
	{"euc-kr", "テスト", "abc6abb9abc8"},
	{"euc-kr", "ソ能表", "abbdd2f6f8fa"},
	{"euc-kr", "русский", "ace2ace5ace3ace3acdcacdaacdb"},
	{"euc-kr", "Привет, мир", "acb1ace2acdaacd3acd6ace42c20acdeacdaace2"},
	{"euc-kr", "한국", "c7d1b1b9"},
	{"euc-kr", "中文", "f1e9d9fe"},
	{"euc-kr", "a,b;\"c\"", "612c623b226322"},
	{"euc-kr", "€100", "a2e6313030"},
	{"euc-kr", "“quoted”", "a1b071756f746564a1b1"},
	{"gbk", "é", "a8a6"},
	{"gbk", "日本", "c8d5b1be"},
	{"gbk", "東京都", "967cbea9b6bc"},
	{"gbk", "テスト", "a5c6a5b9a5c8"},
	{"gbk", "ソ能表", "a5bdc4dcb1ed"},
	{"gbk", "русский", "a7e2a7e5a7e3a7e3a7dca7daa7db"},
	{"gbk", "Привет, мир", "a7b1a7e2a7daa7d3a7d6a7e42c20a7dea7daa7e2"},
	{"gbk", "中文", "d6d0cec4"},
	{"gbk", "a,b;\"c\"", "612c623b226322"},
	{"gbk", "“quoted”", "a1b071756f746564a1b1"},
	{"big5", "日本", "a4e9a5bb"},
	{"big5", "東京都", "aa46a8cab3a3"},
	{"big5", "中文", "a4a4a4e5"},
	{"big5", "a,b;\"c\"", "612c623b226322"},
	{"big5", "“quoted”", "a1a771756f746564a1a8"},
}
