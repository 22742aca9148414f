// Integers whose encoding takes the longest searches found: none of their first 20 to 25 candidates (z<<shift)+j is the abscissa of a point.
#pragma once
#include <gmpxx.h>
#include <vector>
inline const std::vector<const char*>& runs10() { static const std::vector<const char*> v = {
    "40c1309f5080c506bbe722e7f24de1cbceb693a96133973f7e3a8963850ef",
    "42ace75dbbd47d0148c38599c6d11f8e9ba",
    "44b14d45be40ab8977ebee40a267f991887c",
    "44be348fd2ce7a3c8267c22bd1014d4a63c",
    "4e41293c61798c8aa161130",
    "4f80431092723ed",
    "5006e2f6e5565dfd5ed0d1a0cd8ac4c384718a7261ae358ccb91dc76",
    "55e27571ee76bf620831",
    "562b02cab5d23fe6b82cafac414c77a9595f47ad26a08d6c61397bd14",
    "58523f8c6b7177",
    "5fddb51ef38750fb0c724b",
    "6f320d000df878b8143263496a5a754bc6669a82a1490f720",
    "78336b7909a9a13c77a3c049f307ad7a0b01950eacc4f6192b",
    "7e6d04e80cfc0173e5c8a2",
    "8096c12b665277be0b0393ca0397bc9af640aae686",
    "8f90b9d42c625772652df1add664e3d2587935fa718cee4",
    "a08e7bf45a524cef5c62505764a57a272d485d381d245b3e72",
    "a1d72a9e17094675a2dee3e9e3056e0ae2c1fc368e2b5",
    "a3d4db96b8d677e4a",
    "a7f9451d667b7061dbad15407f0b367dc4faa0fe5974dfe65b0896aa3dc4",
    "b593ed1ef0fabd21a0",
    "b7cdc3848786443da180e27e5",
    "beca794c96e128fd53795e623531571d05430eed375afc3d930ef1b4",
    "c7e1d5e4896ea8c55e5535836a5f9a84b13980842222358bcb",
    "ceb39d9091704126f31",
    "d0bf435a92960653b5c51fed589f13841239fde47399fa010012559127991",
    "d1790072bf6e4e9b379a8ff0276e8a4e99f09efb6fadc149ca",
    "e2a50856b8807af0a9f5b31f1f451fd8761d86d4963bf0f529",
    "f629320549d2f10c",
    "fc2c75cd3e4fba13f1f6ba42be41704ac1348e47449e7511603",
    "103822046b3e730b1fa8b1722fa9f795b86a6e408668a17b65462482",
    "154e2efc6b6070bc56eaab07e15bf5",
    "1591f6d8",
    "15b415a3627844ee27eca3bb03a37b007dd5dd913f57df75e64604e80761",
    "15fcc8908bdc969cc2800e749862a292",
    "1b467fe889",
    "1e099d78765593291fc035e614f0762c149060c8e5cb8fb2575f86",
    "286fbc955b7de6a36f82ac9acb508ce6711198aea1cf771073eb24",
    "28cdfef91a2d397ea23f0d4a33e126115bd89915a5978e9",
    "295af2e66688e03",
    "30ae5326113c7449940e9926b98eb292b",
    "4545d7dabcd8198aca89742730f9f8edc7fdf9176145d7f01e3f",
    "4aa248cd517d96e93b04b1e0cd5f725374b1c81da17a0d1340d46c",
    "6e33cbca0af1cbf426ccb89ba2f922bb99be7279f1638ae256",
    "70e55fcc3dba39d1079f20644efdf0c8c9e470458c9185ad0d",
    "71de89",
    "89fa21a616d69e1acf22a8b0c",
    "8ed7b4cbe",
    "a621309bc9690d51c6fce6797e11a",
    "c57cc6bee702b1f8f2572f",
    "c57fa30f97058b9e16505dfda42746a6851187415",
    "f4407c94a5bdbdd54daf8d2e04b5e5a81b08c460d647b51956",
    "1d4b55d624bfc8d901c33a5c54e33700d6bf1b867adb972fdf",
    "44830015212bde4ac60d6209c602933d8f8ace44dbef9",
    "5d30427a6e0d95866260a187f494bca9d05b2e035e90496d43",
    "fad1e99f7ab7b0b7d157904f9820fe077fbf4ebfae98",
    "183d0ae90002f69262de77102d40422f",
    "2504d8b172e60b26503de692cd6927bec150dc579",
    "320025bddf6e16593",
    "4bf2c76814948",
    "8f057794fcffe322b8097c0992e5d8e86f",
    "1df93182c8865c42ff5e69eed1903c359efd77703da703b3809017e4",
    "7fe46d87677c5fd9f4ca",
    "8dfc4fb88d57b80b165a7f4ec5c7fdf797ffe1780c7ce0bc99",
}; return v; }
inline const std::vector<const char*>& runs20() { static const std::vector<const char*> v = {
    "1126fec8b9a14e9",
    "112a7da39cc4a1b52062767fa23da8591",
    "114248129df5712ee",
    "114691622fbf95c97cbd7e12513ca277491ea79",
    "11ba01d053ea1350f1192683207b4beee1d221b688b94ee1762",
    "11bd1b57b2ad91",
    "1240498228d4267b59113fa96250bfd01bf972",
    "126981585b52f4aec5487b3c7b01cb13ccc4f0a",
    "1275ad7269dad11e947980baad0",
    "128e684cf30b3a4db2aa20ae9d4f0a429f72a0bc5997d37820",
    "129f5fd16d9cd47a52cfbcaa3a373be22d4f2e610bca369a9f4c60",
    "132cc2ef559f47451ce43e1a006a88784c1110577bf53501878f",
    "13872fe88e9",
    "13dbcb",
    "1499d1faa568431e57c390f554f153",
    "15f9ca515c474c5c5f0531",
    "168e0e090108325db8998e2",
    "172721b255a31c58f2ab98819204b6b26d4da6f",
    "17b1fae5f546307aa638cd3425c3e613b35e211cc529eaff9b",
    "18206af19",
    "19419deb376e0ec",
    "19e826027",
    "1a5521d877e069d4",
    "1a9a3a3c92c9ed113dc",
    "1be168722ea7c30dcdb540e8a48b3b75d0494f24aa3d313eca6187e2",
    "1be57a65393cc",
    "1cbf7d106a79e811dc27f64f5958f89d285eb08c07e",
    "1cce0515e5533d31f4c0d93bab41a3b3d002f4e045204c649453",
    "1d5a7044cc9",
    "1d8c2d79400ee399472f56",
    "1e86cc502be05e82fce76d6d9625a1f3e4956acdf28f8be4aa",
    "1e9e5716d8af0511ed33eb643f2978e81377755fa2c19b71",
    "1ed8ea2a0dee272589f8b2eed5b63aee90d70fbbdcad60",
    "1f3cf2202d49e8b3e0327538c",
    "1f7e5a2321325bb94c2ab852e4f772",
    "21317bd4ead27058fed99cdc2abbc4b8d99f24aec191f0debc24",
    "21e99319de3c",
    "226524175b5d62bb097d2c88c8b",
    "23203149f1aa7b56a197606639d11c0e327ccabb2be7",
    "23efb77afd156d72e049b0b",
    "24019ac076c5a79b66623c2eea9a428bd2724a70e6f",
    "26e4803ed1e5b69bd",
    "2996cde01dafe3e790680802e0f09c5ddc0202d6763d07d5992",
    "2a08b5322562dabc375bd26c46fbb54793b5588cb5dcb013a2",
    "2a872080399638d83699ed2533b6ea207a782c7549e9e43e54",
    "2bfc76f7f0480b306682bb4f41172d953a6a46f7691cb44935",
    "2e1a778e6b7f99b7c5ecbf42d46fcf2e4799f7aa6e1ee943f8",
    "2ec261c58b50a5a9dbfc5eefbf46385e973f404d4bcd32c3",
    "3026598da4747e71de9629579e30d2be2d6581589ade9477b3",
    "310e91af1f1d7cfaaa383a88cbe06eedd89c45",
    "31b42c036e",
    "32c02471abe0534ee7756587c3",
    "339532bb",
    "34373b9402a4c8",
    "34e30ffa624d15e008949dedaa74ece4a021aed10db554f891d6621",
    "35981b539378d6c4d369ff62a84d057864f51b5f9cfbbaf82",
    "3973c6287953d66df1c529c6cc2ec406b1ac59a1be6a6cc4ac9329ed4",
    "3b537bf687985",
    "3d935b5",
    "3e93ba9e8b89cda30d1b3c570f91748cf",
    "3f494abf3509678ace106373f1ca7abd97",
    "3ff470fb",
    "405090eda6cf48afb59ced",
    "417f863c528edeb724edc0862f9508ce8a2566cdfcc43dd2b0627f1a6b",
    "442be89b2284ab2ea38",
    "470a7ba2a120537577c67447e634e42d20a4",
    "49e9e6f47ca29c8a750bf09e8",
    "4e1a41c9b",
    "4ff27a5d18f4518776e017",
    "521fd5db73ead29b154cae1a862567",
    "546aef6534da5a576ef12ca218cd",
    "547c897752e0a38d12045293993b95d4e247a164",
    "55cd16b4cc7c495167fedbe3d103c89f05855085a035174874ea7e",
    "560c48d8ed466658afd8a170227fdaacdbbc3afe3e9275b28",
    "56ca9de2",
    "595cf1a5daab227f3da36afab6d4f562",
    "5cff4f9de9119ea1fd2aa5264b26e87f31d37dae49973e720f",
    "5e21da612fdd576957c39a07c40967826606baeba0c8b5a977",
    "5ea51788ec7eaf33b8c68f1d",
    "5f7ae00ae7f7d814c9800057c773926c30a7af7fb07df1d6cf",
    "600fba537e3094e389ae131de3e1e2795d106a2",
    "6086a17545aa06952cbbcb3416f0869ac56",
    "613663530a2ed9f0e18a9d371a2b74ada006fcd0f3031289e52",
    "61c4129093bc137caf8cd962dbcf4fd17db5ec435951",
    "62b53f0cace37b5116763e05c9aeb9a15324d8704498ab851",
    "630a61ad07f02bc0951246c26c9cb2680a45881adaa9ab5615",
    "670f502fbd1f03fcb03d943b820cfa4d612238b68789acf32cc71859ed",
    "6763506118d93e8dfe5b40ed41b749c239ae5f7",
    "67cf94335d5eeb6807242551a1dc623912de082c178",
    "684f151065498f57b44d79ab223",
    "71fef85abdc1a63df2dc5ce348a58309374b3df64f3f1e52e3bf5ddf11d",
    "735ce99532b04af4c52",
    "77f4636a349bd928635ffa3dad28591bdf470",
    "7f395a12572c2a6e9db616d927930e96",
    "8024173913b38309f72adfa9224ab0ef4dcf3c615035a28b71",
    "857e1d8a27cd61ab82e08c48a282569",
    "880ca08eac9bdbef82962275757dfff46d1564346026eadfb3",
    "893c5cfc145f65a0f33debea466c8f3cf9ae8234146b22f2",
    "8d7747a37cc772656b1eba29671ba00",
    "91dc1bd43ea0dfa99d25ac1c580b354af8ad6c51ff3712c",
    "98ae6703850ffe45d07a883d82aa5586fbad996d35bdab9260",
    "99977ab94f7078dd7fa233d6eece1e1d29d9887046dbaa1dd1",
    "9e6160315125d771fa10d2c8d7e872eb3ab5045",
    "a2a163f090d7891899c7d05fea8ccd8d4",
    "aa91fa86c7361b95524a77e4781cac8807ebdbba148eee63a1ee2453bf",
    "b9adc107d29975ad588516263f50d4928929f",
    "ba20573f",
    "ba300feaf81efc60975ed1fe3f4fbacd1d4a2fb080",
    "baf6bdfff5ebb2cad339135f5a0ba27e68f61bc61f22255212",
    "bbc3b786f95c0ac0b315121ae7e6cb39138ef9f9181d6deaf003",
    "bf8081509643fbc583681d2d0e",
    "c9b79a",
    "ca6ceef1740109b9d18c99612518aeb6abdc1",
    "d276ec581e363244e5a9f7b76916ffc7f43e2d8a342ffaf5c2",
    "d68a88567d78f44462cc727d3e0ba463adce17b24646778ac2",
    "db70b9ac257e7ac87ff03b8ed8ccbbb1bf1850c8ed59c3ab9",
    "df27cc921f31f2c0758110ef14ba289805d87846a5be0b7f73",
    "df62c7a62d4c3fb5b9149de551d44c35cdad03",
    "df9906765f6d24ed598908b30faadc1a0f43717c5e0d8174d3",
    "df9cb4c7e08a8658d30b16b6abe0b3e782b9aac95be10888bec90d1",
    "dfb4faef0238e880f45ec80d664b7b5cc391",
    "e1852c59d93859aa45",
    "e4e4bbce04dd696b1c4cfaf051b9f9cd18dc586c05436f4421",
    "e51166e9d2c13e718",
    "e82f03ffe1537baff7ecc051af48346ee697e1",
    "ed25f2190a4279c51b0e06593f80811086663393b9f26783bbb6a",
    "f7160489a07b187d96404967891854239e8b36145",
    "fb19388d7f7b0b5a45f2b31ab6c0da933bd3b00009b21fe03d",
    "ffbecc86f03a9cbf7226b03d10efb822f4998498838f89646",
    "ffc97435e92d1a28dcb9274fbba7dbe1d",
}; return v; }
