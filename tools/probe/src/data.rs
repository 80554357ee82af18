// generated: (bits, n, e, d) in hex
pub const KEYS: &[(u32, &str, u64, &str)] = &[
    (528, "8558de8186e75bfc429993b5c53f73c69812ba19d4ff88d9524ba0169c1d991234cbe3be1ee7d178fa769d88c864a9afa60926a44f0a871ba95f3b063323d89f1e75", 65537, "02c682238622e6839e39b187a248896c4ceba9f963c75ee86b0e22ae25cae9788957611bb26ad3a7d513503d7414ef096af67b9befec49547bd50f9c740e39a142d1"),
    (529, "01620ea7b0451f0f272a811c6c4dc127126ddd8483ec0840e8d66b6f588c38af1eff48496508e56383d4777b2681ef97c0c02d091e1f8cb3a42a943d23bab2b0ef1eed", 3, "3b0271480b852d3131c02f67624adbd867a4eb6b52016026ce673d396cb41d2fd4cafb363292e5ac292f6254c01cd0c8f7ea78359eaf34c617bb8d64b5a9282e047b"),
    (530, "02adbabe07a7accc9a3b36bee27fbe8905889bdd3870e83af2540f631978ee06a89b46052929e568beaca60eedd809398dd78387e92ce83e84f7dc0553e745bedd1919", 65537, "1c22220189488f85b85ffb9ee315b4728cac25b53a89f9075e27bdada914cd94e8f0dc30e45a9acac450344a1cf00e69a2fc527089927160011eb5f730e3855b658d"),
    (531, "04015b742f526238318a450a25435111f5cae5ccfdee7211d4c858a3ca8ac7576c0def4594070876095bfbd5ac4faf78e1533d3bd200812c023a406221861f3336705f", 17, "2835c8522b63396b5ac173d94def19cd67544e503b8c00b302d64cb29c07d13b73d7291738f3cd580ea69a3001fa6eb88e9b3ec1a019b88e9c0bd0fea3cae4cebc41"),
    (532, "099451e43f55dfe3023cc97dcfb4c8c1f98010b2fcbb2f30a9e2a108a450d837dfba3b9bcac35737bf7acc17265a5e816b6b9940b27e45b311b9ea9e71975c0991885b", 17, "028924bc6b1e42cb263d44651155806f94de2289bb5eb9aaffcb0c82499cedf0ac281d4c33852a227105bbf6d23fdd761bf582cfdd7da4d5b66a517d951b2bb56bd67d"),
    (533, "173b4fb7e797e1a1e6fc55ec427a160f467cb24b837847b1bac430c4fa7f6aadc9827b6d4163e17357fdd7ba5a62b0e1be4b1f9182e23cdf32eb3e537307dadeaa4669", 17, "01e10854858e2ab8639fb42049243a413c4a15f348c05117c97583f1d07f02fb3b96ef914958f7818ed0c5c5748afdb6904971911be0df9099ffafa4edbd16ae863821"),
    (534, "222fb995d9b66ccb7f93dc13c2d6ae64c22d1ae7808b1cdc6a972a7a3514704b826998fad183e0fe648e6683cba741eeb9fb3512b2b69b4a58d4fc0d8b9a62ab574e41", 17, "010167573b1bf4241a572c1eb2e8324e41f2448e569aae067b9b08c75bea034d83d595d8c09588c3e43c487b42a5d825ae9c817c8790f9699a024f59224af62481043b"),
    (535, "4e03ea9c2f63126e4a361f131a6ba35d6b486ec5ee8fb4c74bcfb2cbc0679b015582aa7b80413b071fb33959d4d2fb7a5fe6969601c2262b3a96b3e1a5bb379ed3f05d", 3, "0d00a71a07e5d867b709052dd9bc9b3a3c8c1276526d48cbe1f7f321f56699d58e3d33fb39820ef312fecf3eb745a3135bd216cc47b300f4fd1e9b92827a3683a43155"),
    (536, "9d74f1d0bd327d2924b5090d03f30dc0ab42d11990b27d9f8950d16642992f06e9c10ab73bd4bfcf615e62f164e417cebd16fa226c575b3a77a0a1d28127d9c658eedb", 65537, "0fc8eb7d0b9a86259bc27257d5af860f6c9bd42e85ecfedf017b12a2f7c6378aafddd050df3abd9cf52c6578b2c4be1cda164b5256f5e610bbea9d55205636ea795681"),
    (537, "013c91aa0a4d4324344d5172d378eb6660051643b2a72e4fb3d1d7389495ef88fe13c7af9b4aa627442bfa6c519a0b38045c676a3316d8ec99033433d518793a5a88761d", 17, "825a18d710c14b24984eb6cf8c24b1af1127490d53e5e4955667ade2d45392c2f90551ab1e5895ef115208555753215e530e5b7597c740e9298e1729bcb5b2d7698675"),
    (544, "a4decfa405b7fa01a729fe2cfaed1fb537291739ec6c680b9f2f971ea5beda2511c403accf3f58fec991aa4bba25bfd27a34864adfd66f98a3238eaf52259d84baecdb7d", 3, "1b7a77f0ab9ea9aaf131aa5cd47cda9e33dc2e89a76766ac9a87ee851b9fcf062da065c57957ae17e13782c273fa7917536161869dd9c9c4286275e07bfa9d390aa13bfb"),
    (545, "01025bdc55b1b9c90ea56056139683f4a77e7bcaedfdb96d8d7336ff18db63759f449c39fe5d2234f90c1098dad9e4920858606542859f2c5f98eb1c061268627a6772a8ff", 17, "16cbdebc446337632cb5ad3df6b14a4b03a182d8c3905c7d6c0c61cd7cc502d958e065cf4ab2fbb3730ba9d667826d59beec2c0811f0c4b0dc9455228a9162b495858b19"),
    (576, "8a94c4758d37d47f0f18a4889f67ebab3e3982f3099a772601f6340c84ae9b08438a2c8d71d5fa6b0cb72a6895f81f2484d86650de5982386daa26b4a4d28263c217beb173f9890d", 65537, "1e9826613f5a8e86b889fbb50fe02cf6c2c786a1ea425840a3593bf771896cbf9fcd8ef51c6d1ceea3ee40b64be679b7510f60624005be1e6a9b44a29099b9caa82a922216a91de1"),
    (600, "8b1ee2c62a2641acfdfc835cca7338d3a969982341f274602890b73bbacb9f1cffda7b57f504a2dffe9cd03ea3a565ba5698160f21dd95952908d5ec44dd4ccb02bbcd68643ac9224d547d", 17, "14757bb3bae78220f82ca9e7ffa7885b5cada56e98c1c5d1e7d90be322ffd3a261dc5d6ed131eb279fc080dd8884d2e3755e3a23e4d09247617b74afbbff21270520700894aca911a56377"),
    (641, "019022e44ad0f7c795321e4ae783ed254125d305db98ba2089c3ab3e14f8a669b7e20a6fe508cb1543559c28678624f47df4b626234b95bd3da0a7e6f4e18b318bdcc06b5eb97210c0639016af4b13b3c1", 17, "0eb5fd1956bdd0bfd68c6866a115e5226527c21903bb8c7d891378dee37e96b5d1b8dab3b6e959407e6cdd2deddd276efe22df8e56296e522efe1c77f6541ffa818845a781db1d68f928eaa1ee4b0fc9"),
    (768, "db273ad41e2c663eb4452a15a1410b8cce37becc425c6fa3567fae3551d1dce82a3b53abab6146ddae107032ccc04238e415672441b42de6a6c832cff1692c14372362d30f44dcddd2b1c4864e1561da42c980bc1d00d7dfba0a2b307d05c983", 65537, "29b3da5ef8eaebfdeca1e8b33aff3caa6ba771f83e7c8685e774de7aa8fa2d76446b0badf42bcba76d731556a55dc47be2b5d8312c2ef1d2a08572b1fcd32d42b9be1699cf6c2528569b1a527007382ffe1f9dfd8319458b5d9de82da557a801"),
];
pub const PRIMES: &[u128] = &[
    2,
    3,
    5,
    7,
    11,
    13,
    17,
    19,
    23,
    29,
    31,
    37,
    41,
    43,
    47,
    53,
    59,
    61,
    67,
    71,
    73,
    79,
    83,
    89,
    97,
    101,
    103,
    107,
    109,
    113,
    127,
    131,
    137,
    139,
    149,
    151,
    157,
    163,
    167,
    173,
    179,
    181,
    191,
    193,
    197,
    199,
    211,
    223,
    227,
    229,
    233,
    239,
    241,
    251,
    257,
    263,
    269,
    271,
    277,
    281,
    283,
    293,
    349,
    509,
    521,
    563,
    1021,
    1031,
    1823,
    2039,
    2053,
    3229,
    4093,
    4099,
    7789,
    8191,
    8209,
    8779,
    16381,
    16411,
    20023,
    32749,
    32771,
    43627,
    65521,
    65537,
    119107,
    131071,
    131101,
    210929,
    262139,
    262147,
    399587,
    524287,
    524309,
    670583,
    1048573,
    1048583,
    1378147,
    2097143,
    2097169,
    3454403,
    4194301,
    4194319,
    7211249,
    8388593,
    8388617,
    10505449,
    16777213,
    16777259,
    20494723,
    33554393,
    33554467,
    51655379,
    67108859,
    67108879,
    83254663,
    134217689,
    134217757,
    175836907,
    268435399,
    268435459,
    410931539,
    536870909,
    536870923,
    886701499,
    1073741789,
    1073741827,
    1236503309,
    2147483647,
    2147483659,
    3132256079,
    4294967291,
    4294967311,
    8474717843,
    8589934583,
    8589934609,
    16851857837,
    17179869143,
    17179869209,
    17530984981,
    34359738337,
    34359738421,
    52263901957,
    68719476731,
    68719476767,
    101790656557,
    137438953447,
    137438953481,
    255332281993,
    274877906899,
    274877906951,
    342910941551,
    549755813881,
    549755813911,
    898229766383,
    1099511627689,
    1099511627791,
    1439977743821,
    2199023255531,
    2199023255579,
    3729637300511,
    4398046511093,
    4398046511119,
    6036051566021,
    8796093022151,
    8796093022237,
    11853005653457,
    17592186044399,
    17592186044423,
    21217845020039,
    35184372088777,
    35184372088891,
    68467614801791,
    70368744177643,
    70368744177679,
    79098778889323,
    140737488355213,
    140737488355333,
    236920634150339,
    281474976710597,
    281474976710677,
    536473803676477,
    562949953421231,
    562949953421381,
    953832557240467,
    1125899906842597,
    1125899906842679,
    1411653763850359,
    2251799813685119,
    2251799813685269,
    3730109882116963,
    4503599627370449,
    4503599627370517,
    6755873608376021,
    9007199254740881,
    9007199254740997,
    11527220510561293,
    18014398509481951,
    18014398509482143,
    31975872141490439,
    36028797018963913,
    36028797018963971,
    63963952668050933,
    72057594037927931,
    72057594037928017,
    93901340094559229,
    144115188075855859,
    144115188075855881,
    172762925094430267,
    288230376151711717,
    288230376151711813,
    398334249471091033,
    576460752303423433,
    576460752303423619,
    1087326095670917623,
    1152921504606846883,
    1152921504606847009,
    1192486396614485611,
    2305843009213693951,
    2305843009213693967,
    3243123600877030139,
    4611686018427387847,
    4611686018427388039,
    8238657638433274651,
    9223372036854775783,
    9223372036854775837,
    13311129781801248311,
    18446744073709551557,
    18446744073709551629,
    23560229189030430751,
    36893488147419103183,
    45826958070415380281,
    84220966570010115299,
    250248931784708946091,
    295147905179352825833,
    551102980989746463449,
    600659726255023880479,
    1622514238048971320743,
    3657732984248774119537,
    4722366482869645213603,
    7369036324439624471839,
    15640021662590357159971,
    23622462121723508537419,
    47332703582593930651069,
    75557863725914323419121,
    123523847716377156425999,
    273113424346489744666577,
    328065046027423581025333,
    651407584464008860861553,
    1208925819614629174706111,
    2412108526509421472525701,
    3567314596082509643811611,
    5987184499168296114117577,
    16277112366900831433513741,
    19342813113834066795298781,
    38679407221770315194759447,
    54980237208607480554755437,
    141674003090698365290279561,
    273856837958150181013868657,
    309485009821345068724780757,
    477868387893474358186825687,
    1053166585630572484753629797,
    2314096148111846664528071537,
    3101038461927715010635655633,
    4951760157141521099596496813,
    6426443560800901589196797179,
    14108705478215092957374810143,
    34158373845459955426153252571,
    44482522071114126136486918099,
    79228162514264337593543950319,
    100942918141527979022310452189,
    296628041102656912957360991753,
    449683019567446825669578243061,
    950348032876708800630557669347,
    1267650600228229401496703205361,
    1771121294832391404236662460089,
    3671192522140684114682771259973,
    6752772061193113595545328995879,
    17347494243819989872632194504383,
    20282409603651670423947251285999,
    36866767269781066165956814967719,
    56122790750197882061553306649871,
    148010782685601342761794816447043,
    175377773903456376680229205913701,
    324518553658426726783156020576197,
    639856008278756407253814551372677,
    798192274844747751320039218004059,
    1408107637382570706829557686148229,
    3149347802672947131387914432159141,
    5192296858534827628530496329220021,
    5308723977303478877804378763884587,
    18668863256315755326580874501491027,
    28263186083655332596576802545989149,
    81013847585760225601693115367701161,
    83076749736557242056487941267521533,
    93221328825129143039117450137908443,
    225813657607827697820985557808125447,
    634984693636141723530014257527414673,
    1207184391289612103313567848335438709,
    1329227995784915872903807060280344457,
    1842264116929003316774190042786760633,
    4214902125266849238676102135327801187,
    6136239920606024983388989650969143143,
    17132540440819775360510008966461593291,
    21267647932558653966460912964485513157,
    30022338662655234010529316402474991909,
];
macro_rules! with_n { ($n:expr, $f:ident, $($a:expr),*) => { match $n {
    1 => $f::<1>($($a),*),
    2 => $f::<2>($($a),*),
    3 => $f::<3>($($a),*),
    4 => $f::<4>($($a),*),
    5 => $f::<5>($($a),*),
    6 => $f::<6>($($a),*),
    7 => $f::<7>($($a),*),
    8 => $f::<8>($($a),*),
    9 => $f::<9>($($a),*),
    10 => $f::<10>($($a),*),
    11 => $f::<11>($($a),*),
    12 => $f::<12>($($a),*),
    13 => $f::<13>($($a),*),
    14 => $f::<14>($($a),*),
    15 => $f::<15>($($a),*),
    16 => $f::<16>($($a),*),
    17 => $f::<17>($($a),*),
    18 => $f::<18>($($a),*),
    19 => $f::<19>($($a),*),
    20 => $f::<20>($($a),*),
    21 => $f::<21>($($a),*),
    22 => $f::<22>($($a),*),
    23 => $f::<23>($($a),*),
    24 => $f::<24>($($a),*),
    25 => $f::<25>($($a),*),
    26 => $f::<26>($($a),*),
    27 => $f::<27>($($a),*),
    28 => $f::<28>($($a),*),
    29 => $f::<29>($($a),*),
    30 => $f::<30>($($a),*),
    31 => $f::<31>($($a),*),
    32 => $f::<32>($($a),*),
    33 => $f::<33>($($a),*),
    34 => $f::<34>($($a),*),
    35 => $f::<35>($($a),*),
    36 => $f::<36>($($a),*),
    37 => $f::<37>($($a),*),
    38 => $f::<38>($($a),*),
    39 => $f::<39>($($a),*),
    40 => $f::<40>($($a),*),
    41 => $f::<41>($($a),*),
    42 => $f::<42>($($a),*),
    43 => $f::<43>($($a),*),
    44 => $f::<44>($($a),*),
    45 => $f::<45>($($a),*),
    46 => $f::<46>($($a),*),
    47 => $f::<47>($($a),*),
    48 => $f::<48>($($a),*),
    49 => $f::<49>($($a),*),
    50 => $f::<50>($($a),*),
    51 => $f::<51>($($a),*),
    52 => $f::<52>($($a),*),
    53 => $f::<53>($($a),*),
    54 => $f::<54>($($a),*),
    55 => $f::<55>($($a),*),
    56 => $f::<56>($($a),*),
    57 => $f::<57>($($a),*),
    58 => $f::<58>($($a),*),
    59 => $f::<59>($($a),*),
    60 => $f::<60>($($a),*),
    61 => $f::<61>($($a),*),
    62 => $f::<62>($($a),*),
    63 => $f::<63>($($a),*),
    64 => $f::<64>($($a),*),
    65 => $f::<65>($($a),*),
    66 => $f::<66>($($a),*),
    67 => $f::<67>($($a),*),
    68 => $f::<68>($($a),*),
    69 => $f::<69>($($a),*),
    70 => $f::<70>($($a),*),
    71 => $f::<71>($($a),*),
    72 => $f::<72>($($a),*),
    73 => $f::<73>($($a),*),
    74 => $f::<74>($($a),*),
    75 => $f::<75>($($a),*),
    76 => $f::<76>($($a),*),
    77 => $f::<77>($($a),*),
    78 => $f::<78>($($a),*),
    79 => $f::<79>($($a),*),
    80 => $f::<80>($($a),*),
    81 => $f::<81>($($a),*),
    82 => $f::<82>($($a),*),
    83 => $f::<83>($($a),*),
    84 => $f::<84>($($a),*),
    85 => $f::<85>($($a),*),
    86 => $f::<86>($($a),*),
    87 => $f::<87>($($a),*),
    88 => $f::<88>($($a),*),
    89 => $f::<89>($($a),*),
    90 => $f::<90>($($a),*),
    91 => $f::<91>($($a),*),
    92 => $f::<92>($($a),*),
    93 => $f::<93>($($a),*),
    94 => $f::<94>($($a),*),
    95 => $f::<95>($($a),*),
    96 => $f::<96>($($a),*),
    97 => $f::<97>($($a),*),
    98 => $f::<98>($($a),*),
    99 => $f::<99>($($a),*),
    100 => $f::<100>($($a),*),
    101 => $f::<101>($($a),*),
    102 => $f::<102>($($a),*),
    103 => $f::<103>($($a),*),
    104 => $f::<104>($($a),*),
    105 => $f::<105>($($a),*),
    106 => $f::<106>($($a),*),
    107 => $f::<107>($($a),*),
    108 => $f::<108>($($a),*),
    109 => $f::<109>($($a),*),
    110 => $f::<110>($($a),*),
    111 => $f::<111>($($a),*),
    112 => $f::<112>($($a),*),
    113 => $f::<113>($($a),*),
    114 => $f::<114>($($a),*),
    115 => $f::<115>($($a),*),
    116 => $f::<116>($($a),*),
    117 => $f::<117>($($a),*),
    118 => $f::<118>($($a),*),
    119 => $f::<119>($($a),*),
    120 => $f::<120>($($a),*),
    121 => $f::<121>($($a),*),
    122 => $f::<122>($($a),*),
    123 => $f::<123>($($a),*),
    124 => $f::<124>($($a),*),
    125 => $f::<125>($($a),*),
    126 => $f::<126>($($a),*),
    127 => $f::<127>($($a),*),
    128 => $f::<128>($($a),*),
    129 => $f::<129>($($a),*),
    130 => $f::<130>($($a),*),
    131 => $f::<131>($($a),*),
    132 => $f::<132>($($a),*),
    133 => $f::<133>($($a),*),
    134 => $f::<134>($($a),*),
    135 => $f::<135>($($a),*),
    136 => $f::<136>($($a),*),
    137 => $f::<137>($($a),*),
    138 => $f::<138>($($a),*),
    139 => $f::<139>($($a),*),
    140 => $f::<140>($($a),*),
    141 => $f::<141>($($a),*),
    142 => $f::<142>($($a),*),
    143 => $f::<143>($($a),*),
    144 => $f::<144>($($a),*),
    145 => $f::<145>($($a),*),
    146 => $f::<146>($($a),*),
    147 => $f::<147>($($a),*),
    148 => $f::<148>($($a),*),
    149 => $f::<149>($($a),*),
    150 => $f::<150>($($a),*),
    151 => $f::<151>($($a),*),
    152 => $f::<152>($($a),*),
    153 => $f::<153>($($a),*),
    154 => $f::<154>($($a),*),
    155 => $f::<155>($($a),*),
    156 => $f::<156>($($a),*),
    157 => $f::<157>($($a),*),
    158 => $f::<158>($($a),*),
    159 => $f::<159>($($a),*),
    160 => $f::<160>($($a),*),
    161 => $f::<161>($($a),*),
    162 => $f::<162>($($a),*),
    163 => $f::<163>($($a),*),
    164 => $f::<164>($($a),*),
    165 => $f::<165>($($a),*),
    166 => $f::<166>($($a),*),
    167 => $f::<167>($($a),*),
    168 => $f::<168>($($a),*),
    169 => $f::<169>($($a),*),
    170 => $f::<170>($($a),*),
    171 => $f::<171>($($a),*),
    172 => $f::<172>($($a),*),
    173 => $f::<173>($($a),*),
    174 => $f::<174>($($a),*),
    175 => $f::<175>($($a),*),
    176 => $f::<176>($($a),*),
    177 => $f::<177>($($a),*),
    178 => $f::<178>($($a),*),
    179 => $f::<179>($($a),*),
    180 => $f::<180>($($a),*),
    181 => $f::<181>($($a),*),
    182 => $f::<182>($($a),*),
    183 => $f::<183>($($a),*),
    184 => $f::<184>($($a),*),
    185 => $f::<185>($($a),*),
    186 => $f::<186>($($a),*),
    187 => $f::<187>($($a),*),
    188 => $f::<188>($($a),*),
    189 => $f::<189>($($a),*),
    190 => $f::<190>($($a),*),
    191 => $f::<191>($($a),*),
    192 => $f::<192>($($a),*),
    193 => $f::<193>($($a),*),
    194 => $f::<194>($($a),*),
    195 => $f::<195>($($a),*),
    196 => $f::<196>($($a),*),
    197 => $f::<197>($($a),*),
    198 => $f::<198>($($a),*),
    199 => $f::<199>($($a),*),
    200 => $f::<200>($($a),*),
    201 => $f::<201>($($a),*),
    202 => $f::<202>($($a),*),
    203 => $f::<203>($($a),*),
    204 => $f::<204>($($a),*),
    205 => $f::<205>($($a),*),
    206 => $f::<206>($($a),*),
    207 => $f::<207>($($a),*),
    208 => $f::<208>($($a),*),
    209 => $f::<209>($($a),*),
    210 => $f::<210>($($a),*),
    211 => $f::<211>($($a),*),
    212 => $f::<212>($($a),*),
    213 => $f::<213>($($a),*),
    214 => $f::<214>($($a),*),
    215 => $f::<215>($($a),*),
    216 => $f::<216>($($a),*),
    217 => $f::<217>($($a),*),
    218 => $f::<218>($($a),*),
    219 => $f::<219>($($a),*),
    220 => $f::<220>($($a),*),
    221 => $f::<221>($($a),*),
    222 => $f::<222>($($a),*),
    223 => $f::<223>($($a),*),
    224 => $f::<224>($($a),*),
    225 => $f::<225>($($a),*),
    226 => $f::<226>($($a),*),
    227 => $f::<227>($($a),*),
    228 => $f::<228>($($a),*),
    229 => $f::<229>($($a),*),
    230 => $f::<230>($($a),*),
    231 => $f::<231>($($a),*),
    232 => $f::<232>($($a),*),
    233 => $f::<233>($($a),*),
    234 => $f::<234>($($a),*),
    235 => $f::<235>($($a),*),
    236 => $f::<236>($($a),*),
    237 => $f::<237>($($a),*),
    238 => $f::<238>($($a),*),
    239 => $f::<239>($($a),*),
    240 => $f::<240>($($a),*),
    241 => $f::<241>($($a),*),
    242 => $f::<242>($($a),*),
    243 => $f::<243>($($a),*),
    244 => $f::<244>($($a),*),
    245 => $f::<245>($($a),*),
    246 => $f::<246>($($a),*),
    247 => $f::<247>($($a),*),
    248 => $f::<248>($($a),*),
    249 => $f::<249>($($a),*),
    250 => $f::<250>($($a),*),
    251 => $f::<251>($($a),*),
    252 => $f::<252>($($a),*),
    253 => $f::<253>($($a),*),
    254 => $f::<254>($($a),*),
    255 => $f::<255>($($a),*),
    _ => panic!("probe: block size"),
} } }
pub(crate) use with_n;
