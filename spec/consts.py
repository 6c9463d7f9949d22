"""Published constants (GOST R 34.12-2015, 34.11-2012, RFC 7836, R 1323565.1.024-2019), frozen at authoring time.

Validated by spec/selftest.py: algebraic structure, orders, and the standards' own test vectors."""
PI = bytes.fromhex('fceedd11cf6e3116fbc4fada23c5044de977f0db932e99ba1736f1bb14cd5fc1f918655ae25cef21811c3c428b018e4f058402aee36a8fa0060bed987fd4d31feb342c51eac848abf22a68a2fd3aceccb5700e56080c7612bf7213479cb75d8715a19629107b9ac7f391786f9d9eb2b13275193dff358a7e6d54c680c3bd0d57dff524a93ea843c9d779d6f67c22b903e00fecde7a94b0bcdce828504e330a4aa79760731e0062441ab83882649f2641ad454692275e552f8ca3a57d69d5953b0758b34086ac1df730376be488d9e789e11b83494c3ff8fe8d53aa90cad88561207167a42d2b095bcb9b25d0bee56c5259a674d2e6f4b4c0d166afc2394b63b6')
MAGMA_S = (
    (12, 4, 6, 2, 10, 5, 11, 9, 14, 8, 13, 7, 0, 3, 15, 1),
    (6, 8, 2, 3, 9, 10, 5, 12, 1, 14, 4, 7, 11, 13, 0, 15),
    (11, 3, 5, 8, 2, 15, 10, 13, 14, 1, 7, 4, 12, 9, 6, 0),
    (12, 8, 2, 1, 13, 4, 15, 6, 7, 0, 10, 5, 3, 14, 9, 11),
    (7, 15, 5, 10, 8, 1, 6, 13, 0, 9, 3, 14, 11, 4, 2, 12),
    (5, 13, 15, 6, 9, 2, 12, 10, 11, 7, 8, 1, 4, 3, 14, 0),
    (8, 14, 2, 5, 6, 9, 1, 12, 15, 4, 11, 0, 13, 10, 3, 7),
    (1, 7, 14, 13, 0, 5, 8, 3, 4, 15, 10, 6, 9, 12, 11, 2),
)
# T8[i][bit]: image of bit of byte i under the Streebog linear map, little-endian 64-bit word as in the reference code
STREEBOG_C = (
    bytes.fromhex('0745a6f2596580dd234d74cc3674760515d360a4082a42a20169679291e07c4bfcc485758db84e7116d0452e43766a2f1f7c65c0812fcbebe9daca1eda5b08b1'),
    bytes.fromhex('b79bb121700479e656cdcbd71ba2dd55caa70adbc261b55c5899d6126b17b59a3101b5160f5ed561982b230a72eafef3d7b5700f469de34f1a2f9da98ab5a36f'),
    bytes.fromhex('b20aba0af5961e9931db7a8643f4b6c209db6260373ac9c1b19e3590e40fe2d37b7b29b11475eaf28b1f9c525f5ef10635843d6a28fc390ac72fce2bacdc74f5'),
    bytes.fromhex('2ed1e384bcbe0c22f137e893a1ea5334be0352933313b7d875d603ed822cd7a93f355e68ad1c729d7d3c5c337e858e48dde4715da0e148f9d26615e8b3df1fef'),
    bytes.fromhex('57fe6c7cfd581760f563eaa97ea2567a161a2723b700ffdfa3f53a254717cdbfbdff0f80d7359e354a1086161f1c157f6323a96c0c413f9a994747adac6bea4b'),
    bytes.fromhex('6e7d64467a4068fa354f903672c571bfb6c6bec2661ff20ab4b79a1cb7a6facfc68ef09ab49a7f186ca44251f9c4662dc039307a3bc3a46fd9d33a1daeae4fae'),
    bytes.fromhex('93d4143a4d568688f34a3ca24c45173504054a2883694706372c822dc5ab9209c9937a19333e47d3c987bfe6c7c69e39540924bffe86ac51ecc5aaee160ec7f4'),
    bytes.fromhex('1ee702bfd40d7fa4d9a8515935c2ac362fc4a5d12b8dd16990069b92cb2b89f49ac4db4d3b44b4891ede369c71f8b74e41416e0c02aae703a7c9934d425b1f9b'),
    bytes.fromhex('db5a238351446172602a1fcb92dc380e549c07a69a8a2b7bb1ceb2db0b440a8084090de0b755d93c244289251b3a7d3ade5f16ecd89a4c949b223116545a8f37'),
    bytes.fromhex('ed9c4598fbc7b474c3b63b15d1fa9836f452763b306c1e7a4b3369af0267e79f0361331b8ae1ff1fdb788aff1ce74189f3f3e4b248e52a38526f0580a6debeab'),
    bytes.fromhex('1b2df381cda4ca6b5dd86fc04a59a2de986e477d1dcdbaefcab948eaef711d8a79668414218001206107abebbb6bfad894fe5a63cdc60230fb89c8efd09ecd7b'),
    bytes.fromhex('20d71bf14a92bc48991bb2d9d517f4fa5228e188aaa41de786cc91189def805d9b9f2130d41220f8771ddfbc323ca4cd7ab14904b08013d2ba3116f167e78e37'),
)
STREEBOG_L = (
    (0x641c314b2b8ee083, 0xc83862965601dd1b, 0x8d70c431ac02a736, 0x07e095624504536c, 0x0edd37c48a08a6d8, 0x1ca76e95091051ad, 0x3853dc371220a247, 0x70a6a56e2440598e),
    (0xa48b474f9ef5dc18, 0x550b8e9e21f7a530, 0xaa16012142f35760, 0x492c024284fbaec0, 0x9258048415eb419d, 0x39b008152acb8227, 0x727d102a548b194e, 0xe4fa2054a80b329c),
    (0xf97d86d98a327728, 0xeffa11af0964ee50, 0xc3e9224312c8c1a0, 0x9bcf4486248d9f5d, 0x2b838811480723ba, 0x561b0d22900e4669, 0xac361a443d1c8cd2, 0x456c34887a3805b9),
    (0x5b068c651810a89e, 0xb60c05ca30204d21, 0x71180a8960409a42, 0xe230140fc0802984, 0xd960281e9d1d5215, 0xafc0503c273aa42a, 0x439da0784e745554, 0x86275df09ce8aaa8),
    (0x0321658cba93c138, 0x0642ca05693b9f70, 0x0c84890ad27623e0, 0x18150f14b9ec46dd, 0x302a1e286fc58ca7, 0x60543c50de970553, 0xc0a878a0a1330aa6, 0x9d4df05d5f661451),
    (0xaccc9ca9328a8950, 0x4585254f64090fa0, 0x8a174a9ec8121e5d, 0x092e94218d243cba, 0x125c354207487869, 0x24b86a840e90f0d2, 0x486dd4151c3dfdb9, 0x90dab52a387ae76f),
    (0x46b60f011a83988e, 0x8c711e02341b2d01, 0x05e23c0468365a02, 0x0ad97808d06cb404, 0x14aff010bdd87508, 0x2843fd2067adea10, 0x5086e740ce47c920, 0xa011d380818e8f40),
    (0x83478b07b2468764, 0x1b8e0b0e798c13c8, 0x3601161cf205268d, 0x6c022c38f90a4c07, 0xd8045870ef14980e, 0xad08b0e0c3282d1c, 0x47107ddd9b505a38, 0x8e20faa72ba0b470),
)
CURVES = {
    'id-tc26-gost-3410-2012-256-paramSetB': {
        'p': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd97,
        'a': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd94,
        'b': 0xa6,
        'm': 0xffffffffffffffffffffffffffffffff6c611070995ad10045841b09b761b893,
        'q': 0xffffffffffffffffffffffffffffffff6c611070995ad10045841b09b761b893,
        'x': 0x1,
        'y': 0x8d91e471e0989cda27df505a453f2b7635294f2ddf23e3b122acc99c9e9f1e14,
    },
    'id-tc26-gost-3410-2012-256-paramSetC': {
        'p': 0x8000000000000000000000000000000000000000000000000000000000000c99,
        'a': 0x8000000000000000000000000000000000000000000000000000000000000c96,
        'b': 0x3e1af419a269a5f866a7d3c25c3df80ae979259373ff2b182f49d4ce7e1bbc8b,
        'm': 0x800000000000000000000000000000015f700cfff1a624e5e497161bcc8a198f,
        'q': 0x800000000000000000000000000000015f700cfff1a624e5e497161bcc8a198f,
        'x': 0x1,
        'y': 0x3fa8124359f96680b83d1c3eb2c070e5c545c9858d03ecfb744bf8d717717efc,
    },
    'id-tc26-gost-3410-2012-256-paramSetD': {
        'p': 0x9b9f605f5a858107ab1ec85e6b41c8aacf846e86789051d37998f7b9022d759b,
        'a': 0x9b9f605f5a858107ab1ec85e6b41c8aacf846e86789051d37998f7b9022d7598,
        'b': 0x805a,
        'm': 0x9b9f605f5a858107ab1ec85e6b41c8aa582ca3511eddfb74f02f3a6598980bb9,
        'q': 0x9b9f605f5a858107ab1ec85e6b41c8aa582ca3511eddfb74f02f3a6598980bb9,
        'x': 0x0,
        'y': 0x41ece55743711a8c3cbf3783cd08c0ee4d4dc440d4641a8f366e550dfdb3bb67,
    },
    'id-tc26-gost-3410-12-512-paramSetA': {
        'p': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7,
        'a': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc4,
        'b': 0xe8c2505dedfc86ddc1bd0b2b6667f1da34b82574761cb0e879bd081cfd0b6265ee3cb090f30d27614cb4574010da90dd862ef9d4ebee4761503190785a71c760,
        'm': 0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff27e69532f48d89116ff22b8d4e0560609b4b38abfad2b85dcacdb1411f10b275,
        'q': 0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff27e69532f48d89116ff22b8d4e0560609b4b38abfad2b85dcacdb1411f10b275,
        'x': 0x3,
        'y': 0x7503cfe87a836ae3a61b8816e25450e6ce5e1c93acf1abc1778064fdcbefa921df1626be4fd036e93d75e6a50e3a41e98028fe5fc235f5b889a589cb5215f2a4,
    },
    'id-tc26-gost-3410-12-512-paramSetB': {
        'p': 0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006f,
        'a': 0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006c,
        'b': 0x687d1b459dc841457e3e06cf6f5e2517b97c7d614af138bcbf85dc806c4b289f3e965d2db1416d217f8b276fad1ab69c50f78bee1fa3106efb8ccbc7c5140116,
        'm': 0x800000000000000000000000000000000000000000000000000000000000000149a1ec142565a545acfdb77bd9d40cfa8b996712101bea0ec6346c54374f25bd,
        'q': 0x800000000000000000000000000000000000000000000000000000000000000149a1ec142565a545acfdb77bd9d40cfa8b996712101bea0ec6346c54374f25bd,
        'x': 0x2,
        'y': 0x1a8f7eda389b094c2c071e3647a8940f3c123b697578c213be6dd9e6c8ec7335dcb228fd1edf4a39152cbcaaf8c0398828041055f94ceeec7e21340780fe41bd,
    },
    'id-tc26-gost-3410-2012-256-paramSetA': {
        'p': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd97,
        'a': 0xc2173f1513981673af4892c23035a27ce25e2013bf95aa33b22c656f277e7335,
        'b': 0x295f9bae7428ed9ccc20e7c359a9d41a22fccd9108e17bf7ba9337a6f8ae9513,
        'e': 0x1,
        'd': 0x605f6b7c183fa81578bc39cfad518132b9df62897009af7e522c32d6dc7bffb,
        'm': 0x1000000000000000000000000000000003f63377f21ed98d70456bd55b0d8319c,
        'q': 0x400000000000000000000000000000000fd8cddfc87b6635c115af556c360c67,
        'x': 0x91e38443a5e82c0d880923425712b2bb658b9196932e02c78b2582fe742daa28,
        'y': 0x32879423ab1a0375895786c4bb46e9565fde0b5344766740af268adb32322e5c,
        'u': 0xd,
        'v': 0x60ca1e32aa475b348488c38fab07649ce7ef8dbe87f22e81f92b2592dba300e7,
    },
    'id-tc26-gost-3410-2012-512-paramSetC': {
        'p': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7,
        'a': 0xdc9203e514a721875485a529d2c722fb187bc8980eb866644de41c68e143064546e861c0e2c9edd92ade71f46fcf50ff2ad97f951fda9f2a2eb6546f39689bd3,
        'b': 0xb4c4ee28cebc6c2c8ac12952cf37f16ac7efb6a9f69f4b57ffda2e4f0de5ade038cbc2fff719d2c18de0284b8bfef3b52b8cc7a5f5bf0a3c8d2319a5312557e1,
        'e': 0x1,
        'd': 0x9e4f5d8c017d8d9f13a5cf3cdf5bfe4dab402d54198e31ebde28a0621050439ca6b39e0a515c06b304e2ce43e79e369e91a0cfc2bc2a22b4ca302dbb33ee7550,
        'm': 0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff26336e91941aac0130cea7fd451d40b323b6a79e9da6849a5188f3bd1fc08fb4,
        'q': 0x3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc98cdba46506ab004c33a9ff5147502cc8eda9e7a769a12694623cef47f023ed,
        'x': 0xe2e31edfc23de7bdebe241ce593ef5de2295b7a9cbaef021d385f7074cea043aa27272a7ae602bf2a7b9033db9ed3610c6fb85487eae97aac5bc7928c1950148,
        'y': 0xf5ce40d95b5eb899abbccff5911cb8577939804d6527378b8c108c3d2090ff9be18e2d33e3021ed2ef32d85822423b6304f726aa854bae07d0396e9a9addc40f,
        'u': 0x12,
        'v': 0x469af79d1fb1f5e16b99592b77a01e2a0fdfb0d01794368d9a56117f7b38669522dd4b650cf789eebf068c5d139732f0905622c04b2baae7600303ee73001a3d,
    },
}
OID_NAMES = {
    '1.2.643.7.1': 'id-tc26',
    '1.2.643.7.1.0': 'modules',
    '1.2.643.7.1.0.1': 'gostR3410-2012-ParamSetSyntax',
    '1.2.643.7.1.0.2': 'gostR3410-2012-PKISyntax',
    '1.2.643.7.1.0.3': 'gostR3410-2012-SignatureSyntax',
    '1.2.643.7.1.0.4': 'gostR3410-2012-EncryptionSyntax',
    '1.2.643.7.1.0.5': 'pkcs-12ruSyntax',
    '1.2.643.7.1.1': 'id-tc26-algorithms',
    '1.2.643.7.1.1.1': 'id-tc26-sign',
    '1.2.643.7.1.1.1.1': 'id-tc26-gost3410-12-256',
    '1.2.643.7.1.1.1.2': 'id-tc26-gost3410-12-512',
    '1.2.643.7.1.1.2': 'id-tc26-digest',
    '1.2.643.7.1.1.2.2': 'id-tc26-gost3411-12-256',
    '1.2.643.7.1.1.2.3': 'id-tc26-gost3411-12-512',
    '1.2.643.7.1.1.3': 'id-tc26-signwithdigest',
    '1.2.643.7.1.1.3.2': 'id-tc26-signwithdigest-gost3410-12-256',
    '1.2.643.7.1.1.3.3': 'id-tc26-signwithdigest-gost3410-12-512',
    '1.2.643.7.1.1.4': 'id-tc26-mac',
    '1.2.643.7.1.1.4.1': 'id-tc26-hmac-gost-3411-12-256',
    '1.2.643.7.1.1.4.2': 'id-tc26-hmac-gost-3411-12-512',
    '1.2.643.7.1.1.5': 'id-tc26-cipher',
    '1.2.643.7.1.1.5.1': 'id-tc26-cipher-gostr3412-2015-magma',
    '1.2.643.7.1.1.5.1.1': 'id-tc26-cipher-gostr3412-2015-magma-ctracpkm',
    '1.2.643.7.1.1.5.1.2': 'id-tc26-cipher-gostr3412-2015-magma-ctracpkm-omac',
    '1.2.643.7.1.1.5.2': 'id-tc26-cipher-gostr3412-2015-kuznyechik',
    '1.2.643.7.1.1.5.2.1': 'id-tc26-cipher-gostr3412-2015-kuznyechik-ctracpkm',
    '1.2.643.7.1.1.5.2.2': 'id-tc26-cipher-gostr3412-2015-kuznyechik-ctracpkm-omac',
    '1.2.643.7.1.1.6': 'id-tc26-agreement',
    '1.2.643.7.1.1.6.1': 'id-tc26-agreement-gost-3410-12-256',
    '1.2.643.7.1.1.6.2': 'id-tc26-agreement-gost-3410-12-512',
    '1.2.643.7.1.1.7': 'id-tc26-wrap',
    '1.2.643.7.1.1.7.1': 'id-tc26-wrap-gostr3412-2015-magma',
    '1.2.643.7.1.1.7.1.1': 'id-tc26-wrap-gostr3412-2015-magma-kexp15',
    '1.2.643.7.1.1.7.2': 'id-tc26-wrap-gostr3412-2015-kuznyechik',
    '1.2.643.7.1.1.7.2.1': 'id-tc26-wrap-gostr3412-2015-kuznyechik-kexp15',
    '1.2.643.7.1.2': 'id-tc26-constants',
    '1.2.643.7.1.2.1': 'id-tc26-sign-constants',
    '1.2.643.7.1.2.1.1': 'id-tc26-gost-3410-12-256-constants',
    '1.2.643.7.1.2.1.1.1': 'id-tc26-gost-3410-12-256-paramSetA',
    '1.2.643.7.1.2.1.1.2': 'id-tc26-gost-3410-12-256-paramSetB',
    '1.2.643.7.1.2.1.1.3': 'id-tc26-gost-3410-12-256-paramSetC',
    '1.2.643.7.1.2.1.1.4': 'id-tc26-gost-3410-12-256-paramSetD',
    '1.2.643.7.1.2.1.2': 'id-tc26-gost-3410-12-512-constants',
    '1.2.643.7.1.2.1.2.0': 'id-tc26-gost-3410-12-512-paramSetTest',
    '1.2.643.7.1.2.1.2.1': 'id-tc26-gost-3410-12-512-paramSetA',
    '1.2.643.7.1.2.1.2.2': 'id-tc26-gost-3410-12-512-paramSetB',
    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetС',
    '1.2.643.7.1.2.2': 'id-tc26-digset-constants',
    '1.2.643.7.1.2.5': 'id-tc26-cipher-constants',
    '1.2.643.7.1.2.5.1': 'id-tc26-gost-28147-constants',
    '1.2.643.7.1.2.5.1.1': 'id-tc26-gost-28147-param-Z',
}
