const G1X: &str = "5121082781502305659180673370797932802982723165543122975335209418297923345190975559367024470794567213188867624617939698818627134048004915564891369096213721202693630090148097888923493708182442885908076346607300083583163982163789167";
const G1Y: &str = "3936891438836912583780051937508657570812555345221986954460153541952284123191322673907692687918062549220672207508016306900511821136915723707181225276750353973961376292016478674329987421847947883311993206004548631860683957877121757";
const G2X: &str = "4299495046121976197967899669570453663523609133273326781652351086315825538613647196868186765217397067654540962955975840176693419657193486845273767814170238104346390446211356851381676719718477415944688400098442139983341339355564981";
const G2Y: &str = "1501381476693777451227230978217091430842826962602338045255398371507653537308020955271876978181145096359995695412993165489860312554088896023045541532421545031682170897196224462174980340752795733839523441093477612926958591841733782";
const HARD: &[u64] = &[0xf335c00000004aef, 0xc14a69eb100066c1, 0x84d74e193dc6ff54, 0xb1ea2024801a659, 0x351f136eb9423dac, 0x75c1c8b32b6af1e2, 0x9660e55a2333ce25, 0xcbcdaa4d1bb2a327, 0xc3be81e9dcafdcc8, 0xe33fb491f2c5cc9, 0x77c4729e3955b7f0, 0xedeea0ca453b1ce2, 0x26b1eb1ee9c72b9, 0x3825a11a07c3de42, 0x9fac795e2fd52698, 0xb9bfdd86ce189a02, 0xd8c73eb8090bd134, 0xc4b3cb6f8d4fee];
