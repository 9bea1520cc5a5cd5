// Generated by gen_tables.py from the published derivations.
static const u32 K256[64] = {0x428a2f98u,0x71374491u,0xb5c0fbcfu,0xe9b5dba5u,0x3956c25bu,0x59f111f1u,0x923f82a4u,0xab1c5ed5u,0xd807aa98u,0x12835b01u,0x243185beu,0x550c7dc3u,0x72be5d74u,0x80deb1feu,0x9bdc06a7u,0xc19bf174u,0xe49b69c1u,0xefbe4786u,0x0fc19dc6u,0x240ca1ccu,0x2de92c6fu,0x4a7484aau,0x5cb0a9dcu,0x76f988dau,0x983e5152u,0xa831c66du,0xb00327c8u,0xbf597fc7u,0xc6e00bf3u,0xd5a79147u,0x06ca6351u,0x14292967u,0x27b70a85u,0x2e1b2138u,0x4d2c6dfcu,0x53380d13u,0x650a7354u,0x766a0abbu,0x81c2c92eu,0x92722c85u,0xa2bfe8a1u,0xa81a664bu,0xc24b8b70u,0xc76c51a3u,0xd192e819u,0xd6990624u,0xf40e3585u,0x106aa070u,0x19a4c116u,0x1e376c08u,0x2748774cu,0x34b0bcb5u,0x391c0cb3u,0x4ed8aa4au,0x5b9cca4fu,0x682e6ff3u,0x748f82eeu,0x78a5636fu,0x84c87814u,0x8cc70208u,0x90befffau,0xa4506cebu,0xbef9a3f7u,0xc67178f2u};
static const u64 K512[80] = {0x428a2f98d728ae22ull,0x7137449123ef65cdull,0xb5c0fbcfec4d3b2full,0xe9b5dba58189dbbcull,0x3956c25bf348b538ull,0x59f111f1b605d019ull,0x923f82a4af194f9bull,0xab1c5ed5da6d8118ull,0xd807aa98a3030242ull,0x12835b0145706fbeull,0x243185be4ee4b28cull,0x550c7dc3d5ffb4e2ull,0x72be5d74f27b896full,0x80deb1fe3b1696b1ull,0x9bdc06a725c71235ull,0xc19bf174cf692694ull,0xe49b69c19ef14ad2ull,0xefbe4786384f25e3ull,0x0fc19dc68b8cd5b5ull,0x240ca1cc77ac9c65ull,0x2de92c6f592b0275ull,0x4a7484aa6ea6e483ull,0x5cb0a9dcbd41fbd4ull,0x76f988da831153b5ull,0x983e5152ee66dfabull,0xa831c66d2db43210ull,0xb00327c898fb213full,0xbf597fc7beef0ee4ull,0xc6e00bf33da88fc2ull,0xd5a79147930aa725ull,0x06ca6351e003826full,0x142929670a0e6e70ull,0x27b70a8546d22ffcull,0x2e1b21385c26c926ull,0x4d2c6dfc5ac42aedull,0x53380d139d95b3dfull,0x650a73548baf63deull,0x766a0abb3c77b2a8ull,0x81c2c92e47edaee6ull,0x92722c851482353bull,0xa2bfe8a14cf10364ull,0xa81a664bbc423001ull,0xc24b8b70d0f89791ull,0xc76c51a30654be30ull,0xd192e819d6ef5218ull,0xd69906245565a910ull,0xf40e35855771202aull,0x106aa07032bbd1b8ull,0x19a4c116b8d2d0c8ull,0x1e376c085141ab53ull,0x2748774cdf8eeb99ull,0x34b0bcb5e19b48a8ull,0x391c0cb3c5c95a63ull,0x4ed8aa4ae3418acbull,0x5b9cca4f7763e373ull,0x682e6ff3d6b2b8a3ull,0x748f82ee5defb2fcull,0x78a5636f43172f60ull,0x84c87814a1f0ab72ull,0x8cc702081a6439ecull,0x90befffa23631e28ull,0xa4506cebde82bde9ull,0xbef9a3f7b2c67915ull,0xc67178f2e372532bull,0xca273eceea26619cull,0xd186b8c721c0c207ull,0xeada7dd6cde0eb1eull,0xf57d4f7fee6ed178ull,0x06f067aa72176fbaull,0x0a637dc5a2c898a6ull,0x113f9804bef90daeull,0x1b710b35131c471bull,0x28db77f523047d84ull,0x32caab7b40c72493ull,0x3c9ebe0a15c9bebcull,0x431d67c49c100d4cull,0x4cc5d4becb3e42b6ull,0x597f299cfc657e2aull,0x5fcb6fab3ad6faecull,0x6c44198c4a475817ull};
static const u32 IV256[8] = {0x6a09e667u,0xbb67ae85u,0x3c6ef372u,0xa54ff53au,0x510e527fu,0x9b05688cu,0x1f83d9abu,0x5be0cd19u};
static const u32 IV224[8] = {0xc1059ed8u,0x367cd507u,0x3070dd17u,0xf70e5939u,0xffc00b31u,0x68581511u,0x64f98fa7u,0xbefa4fa4u};
static const u64 IV512[8] = {0x6a09e667f3bcc908ull,0xbb67ae8584caa73bull,0x3c6ef372fe94f82bull,0xa54ff53a5f1d36f1ull,0x510e527fade682d1ull,0x9b05688c2b3e6c1full,0x1f83d9abfb41bd6bull,0x5be0cd19137e2179ull};
static const u64 IV384[8] = {0xcbbb9d5dc1059ed8ull,0x629a292a367cd507ull,0x9159015a3070dd17ull,0x152fecd8f70e5939ull,0x67332667ffc00b31ull,0x8eb44a8768581511ull,0xdb0c2e0d64f98fa7ull,0x47b5481dbefa4fa4ull};
static const u64 IV512_224[8] = {0x8c3d37c819544da2ull,0x73e1996689dcd4d6ull,0x1dfab7ae32ff9c82ull,0x679dd514582f9fcfull,0x0f6d2b697bd44da8ull,0x77e36f7304c48942ull,0x3f9d85a86a1d36c8ull,0x1112e6ad91d692a1ull};
static const u64 IV512_256[8] = {0x22312194fc2bf72cull,0x9f555fa3c84c64c2ull,0x2393b86b6f53b151ull,0x963877195940eabdull,0x96283ee2a88effe3ull,0xbe5e1e2553863992ull,0x2b0199fc2c85b8aaull,0x0eb72ddc81c52ca2ull};
static const u32 KMD5[64] = {0xd76aa478u,0xe8c7b756u,0x242070dbu,0xc1bdceeeu,0xf57c0fafu,0x4787c62au,0xa8304613u,0xfd469501u,0x698098d8u,0x8b44f7afu,0xffff5bb1u,0x895cd7beu,0x6b901122u,0xfd987193u,0xa679438eu,0x49b40821u,0xf61e2562u,0xc040b340u,0x265e5a51u,0xe9b6c7aau,0xd62f105du,0x02441453u,0xd8a1e681u,0xe7d3fbc8u,0x21e1cde6u,0xc33707d6u,0xf4d50d87u,0x455a14edu,0xa9e3e905u,0xfcefa3f8u,0x676f02d9u,0x8d2a4c8au,0xfffa3942u,0x8771f681u,0x6d9d6122u,0xfde5380cu,0xa4beea44u,0x4bdecfa9u,0xf6bb4b60u,0xbebfbc70u,0x289b7ec6u,0xeaa127fau,0xd4ef3085u,0x04881d05u,0xd9d4d039u,0xe6db99e5u,0x1fa27cf8u,0xc4ac5665u,0xf4292244u,0x432aff97u,0xab9423a7u,0xfc93a039u,0x655b59c3u,0x8f0ccc92u,0xffeff47du,0x85845dd1u,0x6fa87e4fu,0xfe2ce6e0u,0xa3014314u,0x4e0811a1u,0xf7537e82u,0xbd3af235u,0x2ad7d2bbu,0xeb86d391u};
static const u32 CB256[16] = {0x243f6a88u,0x85a308d3u,0x13198a2eu,0x03707344u,0xa4093822u,0x299f31d0u,0x082efa98u,0xec4e6c89u,0x452821e6u,0x38d01377u,0xbe5466cfu,0x34e90c6cu,0xc0ac29b7u,0xc97c50ddu,0x3f84d5b5u,0xb5470917u};
static const u64 CB512[16] = {0x243f6a8885a308d3ull,0x13198a2e03707344ull,0xa4093822299f31d0ull,0x082efa98ec4e6c89ull,0x452821e638d01377ull,0xbe5466cf34e90c6cull,0xc0ac29b7c97c50ddull,0x3f84d5b5b5470917ull,0x9216d5d98979fb1bull,0xd1310ba698dfb5acull,0x2ffd72dbd01adfb7ull,0xb8e1afed6a267e96ull,0xba7c9045f12c7f99ull,0x24a19947b3916cf7ull,0x0801f2e2858efc16ull,0x636920d871574e69ull};
static const u8 SMD2[256] = {0x29u,0x2eu,0x43u,0xc9u,0xa2u,0xd8u,0x7cu,0x01u,0x3du,0x36u,0x54u,0xa1u,0xecu,0xf0u,0x06u,0x13u,0x62u,0xa7u,0x05u,0xf3u,0xc0u,0xc7u,0x73u,0x8cu,0x98u,0x93u,0x2bu,0xd9u,0xbcu,0x4cu,0x82u,0xcau,0x1eu,0x9bu,0x57u,0x3cu,0xfdu,0xd4u,0xe0u,0x16u,0x67u,0x42u,0x6fu,0x18u,0x8au,0x17u,0xe5u,0x12u,0xbeu,0x4eu,0xc4u,0xd6u,0xdau,0x9eu,0xdeu,0x49u,0xa0u,0xfbu,0xf5u,0x8eu,0xbbu,0x2fu,0xeeu,0x7au,0xa9u,0x68u,0x79u,0x91u,0x15u,0xb2u,0x07u,0x3fu,0x94u,0xc2u,0x10u,0x89u,0x0bu,0x22u,0x5fu,0x21u,0x80u,0x7fu,0x5du,0x9au,0x5au,0x90u,0x32u,0x27u,0x35u,0x3eu,0xccu,0xe7u,0xbfu,0xf7u,0x97u,0x03u,0xffu,0x19u,0x30u,0xb3u,0x48u,0xa5u,0xb5u,0xd1u,0xd7u,0x5eu,0x92u,0x2au,0xacu,0x56u,0xaau,0xc6u,0x4fu,0xb8u,0x38u,0xd2u,0x96u,0xa4u,0x7du,0xb6u,0x76u,0xfcu,0x6bu,0xe2u,0x9cu,0x74u,0x04u,0xf1u,0x45u,0x9du,0x70u,0x59u,0x64u,0x71u,0x87u,0x20u,0x86u,0x5bu,0xcfu,0x65u,0xe6u,0x2du,0xa8u,0x02u,0x1bu,0x60u,0x25u,0xadu,0xaeu,0xb0u,0xb9u,0xf6u,0x1cu,0x46u,0x61u,0x69u,0x34u,0x40u,0x7eu,0x0fu,0x55u,0x47u,0xa3u,0x23u,0xddu,0x51u,0xafu,0x3au,0xc3u,0x5cu,0xf9u,0xceu,0xbau,0xc5u,0xeau,0x26u,0x2cu,0x53u,0x0du,0x6eu,0x85u,0x28u,0x84u,0x09u,0xd3u,0xdfu,0xcdu,0xf4u,0x41u,0x81u,0x4du,0x52u,0x6au,0xdcu,0x37u,0xc8u,0x6cu,0xc1u,0xabu,0xfau,0x24u,0xe1u,0x7bu,0x08u,0x0cu,0xbdu,0xb1u,0x4au,0x78u,0x88u,0x95u,0x8bu,0xe3u,0x63u,0xe8u,0x6du,0xe9u,0xcbu,0xd5u,0xfeu,0x3bu,0x00u,0x1du,0x39u,0xf2u,0xefu,0xb7u,0x0eu,0x66u,0x58u,0xd0u,0xe4u,0xa6u,0x77u,0x72u,0xf8u,0xebu,0x75u,0x4bu,0x0au,0x31u,0x44u,0x50u,0xb4u,0x8fu,0xedu,0x1fu,0x1au,0xdbu,0x99u,0x8du,0x33u,0x9fu,0x11u,0x83u,0x14u};
static const u32 TCRC[256] = {0x00000000u,0x77073096u,0xee0e612cu,0x990951bau,0x076dc419u,0x706af48fu,0xe963a535u,0x9e6495a3u,0x0edb8832u,0x79dcb8a4u,0xe0d5e91eu,0x97d2d988u,0x09b64c2bu,0x7eb17cbdu,0xe7b82d07u,0x90bf1d91u,0x1db71064u,0x6ab020f2u,0xf3b97148u,0x84be41deu,0x1adad47du,0x6ddde4ebu,0xf4d4b551u,0x83d385c7u,0x136c9856u,0x646ba8c0u,0xfd62f97au,0x8a65c9ecu,0x14015c4fu,0x63066cd9u,0xfa0f3d63u,0x8d080df5u,0x3b6e20c8u,0x4c69105eu,0xd56041e4u,0xa2677172u,0x3c03e4d1u,0x4b04d447u,0xd20d85fdu,0xa50ab56bu,0x35b5a8fau,0x42b2986cu,0xdbbbc9d6u,0xacbcf940u,0x32d86ce3u,0x45df5c75u,0xdcd60dcfu,0xabd13d59u,0x26d930acu,0x51de003au,0xc8d75180u,0xbfd06116u,0x21b4f4b5u,0x56b3c423u,0xcfba9599u,0xb8bda50fu,0x2802b89eu,0x5f058808u,0xc60cd9b2u,0xb10be924u,0x2f6f7c87u,0x58684c11u,0xc1611dabu,0xb6662d3du,0x76dc4190u,0x01db7106u,0x98d220bcu,0xefd5102au,0x71b18589u,0x06b6b51fu,0x9fbfe4a5u,0xe8b8d433u,0x7807c9a2u,0x0f00f934u,0x9609a88eu,0xe10e9818u,0x7f6a0dbbu,0x086d3d2du,0x91646c97u,0xe6635c01u,0x6b6b51f4u,0x1c6c6162u,0x856530d8u,0xf262004eu,0x6c0695edu,0x1b01a57bu,0x8208f4c1u,0xf50fc457u,0x65b0d9c6u,0x12b7e950u,0x8bbeb8eau,0xfcb9887cu,0x62dd1ddfu,0x15da2d49u,0x8cd37cf3u,0xfbd44c65u,0x4db26158u,0x3ab551ceu,0xa3bc0074u,0xd4bb30e2u,0x4adfa541u,0x3dd895d7u,0xa4d1c46du,0xd3d6f4fbu,0x4369e96au,0x346ed9fcu,0xad678846u,0xda60b8d0u,0x44042d73u,0x33031de5u,0xaa0a4c5fu,0xdd0d7cc9u,0x5005713cu,0x270241aau,0xbe0b1010u,0xc90c2086u,0x5768b525u,0x206f85b3u,0xb966d409u,0xce61e49fu,0x5edef90eu,0x29d9c998u,0xb0d09822u,0xc7d7a8b4u,0x59b33d17u,0x2eb40d81u,0xb7bd5c3bu,0xc0ba6cadu,0xedb88320u,0x9abfb3b6u,0x03b6e20cu,0x74b1d29au,0xead54739u,0x9dd277afu,0x04db2615u,0x73dc1683u,0xe3630b12u,0x94643b84u,0x0d6d6a3eu,0x7a6a5aa8u,0xe40ecf0bu,0x9309ff9du,0x0a00ae27u,0x7d079eb1u,0xf00f9344u,0x8708a3d2u,0x1e01f268u,0x6906c2feu,0xf762575du,0x806567cbu,0x196c3671u,0x6e6b06e7u,0xfed41b76u,0x89d32be0u,0x10da7a5au,0x67dd4accu,0xf9b9df6fu,0x8ebeeff9u,0x17b7be43u,0x60b08ed5u,0xd6d6a3e8u,0xa1d1937eu,0x38d8c2c4u,0x4fdff252u,0xd1bb67f1u,0xa6bc5767u,0x3fb506ddu,0x48b2364bu,0xd80d2bdau,0xaf0a1b4cu,0x36034af6u,0x41047a60u,0xdf60efc3u,0xa867df55u,0x316e8eefu,0x4669be79u,0xcb61b38cu,0xbc66831au,0x256fd2a0u,0x5268e236u,0xcc0c7795u,0xbb0b4703u,0x220216b9u,0x5505262fu,0xc5ba3bbeu,0xb2bd0b28u,0x2bb45a92u,0x5cb36a04u,0xc2d7ffa7u,0xb5d0cf31u,0x2cd99e8bu,0x5bdeae1du,0x9b64c2b0u,0xec63f226u,0x756aa39cu,0x026d930au,0x9c0906a9u,0xeb0e363fu,0x72076785u,0x05005713u,0x95bf4a82u,0xe2b87a14u,0x7bb12baeu,0x0cb61b38u,0x92d28e9bu,0xe5d5be0du,0x7cdcefb7u,0x0bdbdf21u,0x86d3d2d4u,0xf1d4e242u,0x68ddb3f8u,0x1fda836eu,0x81be16cdu,0xf6b9265bu,0x6fb077e1u,0x18b74777u,0x88085ae6u,0xff0f6a70u,0x66063bcau,0x11010b5cu,0x8f659effu,0xf862ae69u,0x616bffd3u,0x166ccf45u,0xa00ae278u,0xd70dd2eeu,0x4e048354u,0x3903b3c2u,0xa7672661u,0xd06016f7u,0x4969474du,0x3e6e77dbu,0xaed16a4au,0xd9d65adcu,0x40df0b66u,0x37d83bf0u,0xa9bcae53u,0xdebb9ec5u,0x47b2cf7fu,0x30b5ffe9u,0xbdbdf21cu,0xcabac28au,0x53b39330u,0x24b4a3a6u,0xbad03605u,0xcdd70693u,0x54de5729u,0x23d967bfu,0xb3667a2eu,0xc4614ab8u,0x5d681b02u,0x2a6f2b94u,0xb40bbe37u,0xc30c8ea1u,0x5a05df1bu,0x2d02ef8du};
static const u8 SWP[256] = {0x18u,0x23u,0xc6u,0xe8u,0x87u,0xb8u,0x01u,0x4fu,0x36u,0xa6u,0xd2u,0xf5u,0x79u,0x6fu,0x91u,0x52u,0x60u,0xbcu,0x9bu,0x8eu,0xa3u,0x0cu,0x7bu,0x35u,0x1du,0xe0u,0xd7u,0xc2u,0x2eu,0x4bu,0xfeu,0x57u,0x15u,0x77u,0x37u,0xe5u,0x9fu,0xf0u,0x4au,0xdau,0x58u,0xc9u,0x29u,0x0au,0xb1u,0xa0u,0x6bu,0x85u,0xbdu,0x5du,0x10u,0xf4u,0xcbu,0x3eu,0x05u,0x67u,0xe4u,0x27u,0x41u,0x8bu,0xa7u,0x7du,0x95u,0xd8u,0xfbu,0xeeu,0x7cu,0x66u,0xddu,0x17u,0x47u,0x9eu,0xcau,0x2du,0xbfu,0x07u,0xadu,0x5au,0x83u,0x33u,0x63u,0x02u,0xaau,0x71u,0xc8u,0x19u,0x49u,0xd9u,0xf2u,0xe3u,0x5bu,0x88u,0x9au,0x26u,0x32u,0xb0u,0xe9u,0x0fu,0xd5u,0x80u,0xbeu,0xcdu,0x34u,0x48u,0xffu,0x7au,0x90u,0x5fu,0x20u,0x68u,0x1au,0xaeu,0xb4u,0x54u,0x93u,0x22u,0x64u,0xf1u,0x73u,0x12u,0x40u,0x08u,0xc3u,0xecu,0xdbu,0xa1u,0x8du,0x3du,0x97u,0x00u,0xcfu,0x2bu,0x76u,0x82u,0xd6u,0x1bu,0xb5u,0xafu,0x6au,0x50u,0x45u,0xf3u,0x30u,0xefu,0x3fu,0x55u,0xa2u,0xeau,0x65u,0xbau,0x2fu,0xc0u,0xdeu,0x1cu,0xfdu,0x4du,0x92u,0x75u,0x06u,0x8au,0xb2u,0xe6u,0x0eu,0x1fu,0x62u,0xd4u,0xa8u,0x96u,0xf9u,0xc5u,0x25u,0x59u,0x84u,0x72u,0x39u,0x4cu,0x5eu,0x78u,0x38u,0x8cu,0xd1u,0xa5u,0xe2u,0x61u,0xb3u,0x21u,0x9cu,0x1eu,0x43u,0xc7u,0xfcu,0x04u,0x51u,0x99u,0x6du,0x0du,0xfau,0xdfu,0x7eu,0x24u,0x3bu,0xabu,0xceu,0x11u,0x8fu,0x4eu,0xb7u,0xebu,0x3cu,0x81u,0x94u,0xf7u,0xb9u,0x13u,0x2cu,0xd3u,0xe7u,0x6eu,0xc4u,0x03u,0x56u,0x44u,0x7fu,0xa9u,0x2au,0xbbu,0xc1u,0x53u,0xdcu,0x0bu,0x9du,0x6cu,0x31u,0x74u,0xf6u,0x46u,0xacu,0x89u,0x14u,0xe1u,0x16u,0x3au,0x69u,0x09u,0x70u,0xb6u,0xd0u,0xedu,0xccu,0x42u,0x98u,0xa4u,0x28u,0x5cu,0xf8u,0x86u};
static const u64 WROW0[256] = {0x18186018c07830d8ull,0x23238c2305af4626ull,0xc6c63fc67ef991b8ull,0xe8e887e8136fcdfbull,0x878726874ca113cbull,0xb8b8dab8a9626d11ull,0x0101040108050209ull,0x4f4f214f426e9e0dull,0x3636d836adee6c9bull,0xa6a6a2a6590451ffull,0xd2d26fd2debdb90cull,0xf5f5f3f5fb06f70eull,0x7979f979ef80f296ull,0x6f6fa16f5fcede30ull,0x91917e91fcef3f6dull,0x52525552aa07a4f8ull,0x60609d6027fdc047ull,0xbcbccabc89766535ull,0x9b9b569baccd2b37ull,0x8e8e028e048c018aull,0xa3a3b6a371155bd2ull,0x0c0c300c603c186cull,0x7b7bf17bff8af684ull,0x3535d435b5e16a80ull,0x1d1d741de8693af5ull,0xe0e0a7e05347ddb3ull,0xd7d77bd7f6acb321ull,0xc2c22fc25eed999cull,0x2e2eb82e6d965c43ull,0x4b4b314b627a9629ull,0xfefedffea321e15dull,0x575741578216aed5ull,0x15155415a8412abdull,0x7777c1779fb6eee8ull,0x3737dc37a5eb6e92ull,0xe5e5b3e57b56d79eull,0x9f9f469f8cd92313ull,0xf0f0e7f0d317fd23ull,0x4a4a354a6a7f9420ull,0xdada4fda9e95a944ull,0x58587d58fa25b0a2ull,0xc9c903c906ca8fcfull,0x2929a429558d527cull,0x0a0a280a5022145aull,0xb1b1feb1e14f7f50ull,0xa0a0baa0691a5dc9ull,0x6b6bb16b7fdad614ull,0x85852e855cab17d9ull,0xbdbdcebd8173673cull,0x5d5d695dd234ba8full,0x1010401080502090ull,0xf4f4f7f4f303f507ull,0xcbcb0bcb16c08bddull,0x3e3ef83eedc67cd3ull,0x0505140528110a2dull,0x676781671fe6ce78ull,0xe4e4b7e47353d597ull,0x27279c2725bb4e02ull,0x4141194132588273ull,0x8b8b168b2c9d0ba7ull,0xa7a7a6a7510153f6ull,0x7d7de97dcf94fab2ull,0x95956e95dcfb3749ull,0xd8d847d88e9fad56ull,0xfbfbcbfb8b30eb70ull,0xeeee9fee2371c1cdull,0x7c7ced7cc791f8bbull,0x6666856617e3cc71ull,0xdddd53dda68ea77bull,0x17175c17b84b2eafull,0x4747014702468e45ull,0x9e9e429e84dc211aull,0xcaca0fca1ec589d4ull,0x2d2db42d75995a58ull,0xbfbfc6bf9179632eull,0x07071c07381b0e3full,0xadad8ead012347acull,0x5a5a755aea2fb4b0ull,0x838336836cb51befull,0x3333cc3385ff66b6ull,0x636391633ff2c65cull,0x02020802100a0412ull,0xaaaa92aa39384993ull,0x7171d971afa8e2deull,0xc8c807c80ecf8dc6ull,0x19196419c87d32d1ull,0x494939497270923bull,0xd9d943d9869aaf5full,0xf2f2eff2c31df931ull,0xe3e3abe34b48dba8ull,0x5b5b715be22ab6b9ull,0x88881a8834920dbcull,0x9a9a529aa4c8293eull,0x262698262dbe4c0bull,0x3232c8328dfa64bfull,0xb0b0fab0e94a7d59ull,0xe9e983e91b6acff2ull,0x0f0f3c0f78331e77ull,0xd5d573d5e6a6b733ull,0x80803a8074ba1df4ull,0xbebec2be997c6127ull,0xcdcd13cd26de87ebull,0x3434d034bde46889ull,0x48483d487a759032ull,0xffffdbffab24e354ull,0x7a7af57af78ff48dull,0x90907a90f4ea3d64ull,0x5f5f615fc23ebe9dull,0x202080201da0403dull,0x6868bd6867d5d00full,0x1a1a681ad07234caull,0xaeae82ae192c41b7ull,0xb4b4eab4c95e757dull,0x54544d549a19a8ceull,0x93937693ece53b7full,0x222288220daa442full,0x64648d6407e9c863ull,0xf1f1e3f1db12ff2aull,0x7373d173bfa2e6ccull,0x12124812905a2482ull,0x40401d403a5d807aull,0x0808200840281048ull,0xc3c32bc356e89b95ull,0xecec97ec337bc5dfull,0xdbdb4bdb9690ab4dull,0xa1a1bea1611f5fc0ull,0x8d8d0e8d1c830791ull,0x3d3df43df5c97ac8ull,0x97976697ccf1335bull,0x0000000000000000ull,0xcfcf1bcf36d483f9ull,0x2b2bac2b4587566eull,0x7676c57697b3ece1ull,0x8282328264b019e6ull,0xd6d67fd6fea9b128ull,0x1b1b6c1bd87736c3ull,0xb5b5eeb5c15b7774ull,0xafaf86af112943beull,0x6a6ab56a77dfd41dull,0x50505d50ba0da0eaull,0x45450945124c8a57ull,0xf3f3ebf3cb18fb38ull,0x3030c0309df060adull,0xefef9bef2b74c3c4ull,0x3f3ffc3fe5c37edaull,0x55554955921caac7ull,0xa2a2b2a2791059dbull,0xeaea8fea0365c9e9ull,0x656589650fecca6aull,0xbabad2bab9686903ull,0x2f2fbc2f65935e4aull,0xc0c027c04ee79d8eull,0xdede5fdebe81a160ull,0x1c1c701ce06c38fcull,0xfdfdd3fdbb2ee746ull,0x4d4d294d52649a1full,0x92927292e4e03976ull,0x7575c9758fbceafaull,0x06061806301e0c36ull,0x8a8a128a249809aeull,0xb2b2f2b2f940794bull,0xe6e6bfe66359d185ull,0x0e0e380e70361c7eull,0x1f1f7c1ff8633ee7ull,0x6262956237f7c455ull,0xd4d477d4eea3b53aull,0xa8a89aa829324d81ull,0x96966296c4f43152ull,0xf9f9c3f99b3aef62ull,0xc5c533c566f697a3ull,0x2525942535b14a10ull,0x59597959f220b2abull,0x84842a8454ae15d0ull,0x7272d572b7a7e4c5ull,0x3939e439d5dd72ecull,0x4c4c2d4c5a619816ull,0x5e5e655eca3bbc94ull,0x7878fd78e785f09full,0x3838e038ddd870e5ull,0x8c8c0a8c14860598ull,0xd1d163d1c6b2bf17ull,0xa5a5aea5410b57e4ull,0xe2e2afe2434dd9a1ull,0x616199612ff8c24eull,0xb3b3f6b3f1457b42ull,0x2121842115a54234ull,0x9c9c4a9c94d62508ull,0x1e1e781ef0663ceeull,0x4343114322528661ull,0xc7c73bc776fc93b1ull,0xfcfcd7fcb32be54full,0x0404100420140824ull,0x51515951b208a2e3ull,0x99995e99bcc72f25ull,0x6d6da96d4fc4da22ull,0x0d0d340d68391a65ull,0xfafacffa8335e979ull,0xdfdf5bdfb684a369ull,0x7e7ee57ed79bfca9ull,0x242490243db44819ull,0x3b3bec3bc5d776feull,0xabab96ab313d4b9aull,0xcece1fce3ed181f0ull,0x1111441188552299ull,0x8f8f068f0c890383ull,0x4e4e254e4a6b9c04ull,0xb7b7e6b7d1517366ull,0xebeb8beb0b60cbe0ull,0x3c3cf03cfdcc78c1ull,0x81813e817cbf1ffdull,0x94946a94d4fe3540ull,0xf7f7fbf7eb0cf31cull,0xb9b9deb9a1676f18ull,0x13134c13985f268bull,0x2c2cb02c7d9c5851ull,0xd3d36bd3d6b8bb05ull,0xe7e7bbe76b5cd38cull,0x6e6ea56e57cbdc39ull,0xc4c437c46ef395aaull,0x03030c03180f061bull,0x565645568a13acdcull,0x44440d441a49885eull,0x7f7fe17fdf9efea0ull,0xa9a99ea921374f88ull,0x2a2aa82a4d825467ull,0xbbbbd6bbb16d6b0aull,0xc1c123c146e29f87ull,0x53535153a202a6f1ull,0xdcdc57dcae8ba572ull,0x0b0b2c0b58271653ull,0x9d9d4e9d9cd32701ull,0x6c6cad6c47c1d82bull,0x3131c43195f562a4ull,0x7474cd7487b9e8f3ull,0xf6f6fff6e309f115ull,0x464605460a438c4cull,0xacac8aac092645a5ull,0x89891e893c970fb5ull,0x14145014a04428b4ull,0xe1e1a3e15b42dfbaull,0x16165816b04e2ca6ull,0x3a3ae83acdd274f7ull,0x6969b9696fd0d206ull,0x09092409482d1241ull,0x7070dd70a7ade0d7ull,0xb6b6e2b6d954716full,0xd0d067d0ceb7bd1eull,0xeded93ed3b7ec7d6ull,0xcccc17cc2edb85e2ull,0x424215422a578468ull,0x98985a98b4c22d2cull,0xa4a4aaa4490e55edull,0x2828a0285d885075ull,0x5c5c6d5cda31b886ull,0xf8f8c7f8933fed6bull,0x8686228644a411c2ull};
static const u64 WROW1[256] = {0xd818186018c07830ull,0x2623238c2305af46ull,0xb8c6c63fc67ef991ull,0xfbe8e887e8136fcdull,0xcb878726874ca113ull,0x11b8b8dab8a9626dull,0x0901010401080502ull,0x0d4f4f214f426e9eull,0x9b3636d836adee6cull,0xffa6a6a2a6590451ull,0x0cd2d26fd2debdb9ull,0x0ef5f5f3f5fb06f7ull,0x967979f979ef80f2ull,0x306f6fa16f5fcedeull,0x6d91917e91fcef3full,0xf852525552aa07a4ull,0x4760609d6027fdc0ull,0x35bcbccabc897665ull,0x379b9b569baccd2bull,0x8a8e8e028e048c01ull,0xd2a3a3b6a371155bull,0x6c0c0c300c603c18ull,0x847b7bf17bff8af6ull,0x803535d435b5e16aull,0xf51d1d741de8693aull,0xb3e0e0a7e05347ddull,0x21d7d77bd7f6acb3ull,0x9cc2c22fc25eed99ull,0x432e2eb82e6d965cull,0x294b4b314b627a96ull,0x5dfefedffea321e1ull,0xd5575741578216aeull,0xbd15155415a8412aull,0xe87777c1779fb6eeull,0x923737dc37a5eb6eull,0x9ee5e5b3e57b56d7ull,0x139f9f469f8cd923ull,0x23f0f0e7f0d317fdull,0x204a4a354a6a7f94ull,0x44dada4fda9e95a9ull,0xa258587d58fa25b0ull,0xcfc9c903c906ca8full,0x7c2929a429558d52ull,0x5a0a0a280a502214ull,0x50b1b1feb1e14f7full,0xc9a0a0baa0691a5dull,0x146b6bb16b7fdad6ull,0xd985852e855cab17ull,0x3cbdbdcebd817367ull,0x8f5d5d695dd234baull,0x9010104010805020ull,0x07f4f4f7f4f303f5ull,0xddcbcb0bcb16c08bull,0xd33e3ef83eedc67cull,0x2d0505140528110aull,0x78676781671fe6ceull,0x97e4e4b7e47353d5ull,0x0227279c2725bb4eull,0x7341411941325882ull,0xa78b8b168b2c9d0bull,0xf6a7a7a6a7510153ull,0xb27d7de97dcf94faull,0x4995956e95dcfb37ull,0x56d8d847d88e9fadull,0x70fbfbcbfb8b30ebull,0xcdeeee9fee2371c1ull,0xbb7c7ced7cc791f8ull,0x716666856617e3ccull,0x7bdddd53dda68ea7ull,0xaf17175c17b84b2eull,0x454747014702468eull,0x1a9e9e429e84dc21ull,0xd4caca0fca1ec589ull,0x582d2db42d75995aull,0x2ebfbfc6bf917963ull,0x3f07071c07381b0eull,0xacadad8ead012347ull,0xb05a5a755aea2fb4ull,0xef838336836cb51bull,0xb63333cc3385ff66ull,0x5c636391633ff2c6ull,0x1202020802100a04ull,0x93aaaa92aa393849ull,0xde7171d971afa8e2ull,0xc6c8c807c80ecf8dull,0xd119196419c87d32ull,0x3b49493949727092ull,0x5fd9d943d9869aafull,0x31f2f2eff2c31df9ull,0xa8e3e3abe34b48dbull,0xb95b5b715be22ab6ull,0xbc88881a8834920dull,0x3e9a9a529aa4c829ull,0x0b262698262dbe4cull,0xbf3232c8328dfa64ull,0x59b0b0fab0e94a7dull,0xf2e9e983e91b6acfull,0x770f0f3c0f78331eull,0x33d5d573d5e6a6b7ull,0xf480803a8074ba1dull,0x27bebec2be997c61ull,0xebcdcd13cd26de87ull,0x893434d034bde468ull,0x3248483d487a7590ull,0x54ffffdbffab24e3ull,0x8d7a7af57af78ff4ull,0x6490907a90f4ea3dull,0x9d5f5f615fc23ebeull,0x3d202080201da040ull,0x0f6868bd6867d5d0ull,0xca1a1a681ad07234ull,0xb7aeae82ae192c41ull,0x7db4b4eab4c95e75ull,0xce54544d549a19a8ull,0x7f93937693ece53bull,0x2f222288220daa44ull,0x6364648d6407e9c8ull,0x2af1f1e3f1db12ffull,0xcc7373d173bfa2e6ull,0x8212124812905a24ull,0x7a40401d403a5d80ull,0x4808082008402810ull,0x95c3c32bc356e89bull,0xdfecec97ec337bc5ull,0x4ddbdb4bdb9690abull,0xc0a1a1bea1611f5full,0x918d8d0e8d1c8307ull,0xc83d3df43df5c97aull,0x5b97976697ccf133ull,0x0000000000000000ull,0xf9cfcf1bcf36d483ull,0x6e2b2bac2b458756ull,0xe17676c57697b3ecull,0xe68282328264b019ull,0x28d6d67fd6fea9b1ull,0xc31b1b6c1bd87736ull,0x74b5b5eeb5c15b77ull,0xbeafaf86af112943ull,0x1d6a6ab56a77dfd4ull,0xea50505d50ba0da0ull,0x5745450945124c8aull,0x38f3f3ebf3cb18fbull,0xad3030c0309df060ull,0xc4efef9bef2b74c3ull,0xda3f3ffc3fe5c37eull,0xc755554955921caaull,0xdba2a2b2a2791059ull,0xe9eaea8fea0365c9ull,0x6a656589650feccaull,0x03babad2bab96869ull,0x4a2f2fbc2f65935eull,0x8ec0c027c04ee79dull,0x60dede5fdebe81a1ull,0xfc1c1c701ce06c38ull,0x46fdfdd3fdbb2ee7ull,0x1f4d4d294d52649aull,0x7692927292e4e039ull,0xfa7575c9758fbceaull,0x3606061806301e0cull,0xae8a8a128a249809ull,0x4bb2b2f2b2f94079ull,0x85e6e6bfe66359d1ull,0x7e0e0e380e70361cull,0xe71f1f7c1ff8633eull,0x556262956237f7c4ull,0x3ad4d477d4eea3b5ull,0x81a8a89aa829324dull,0x5296966296c4f431ull,0x62f9f9c3f99b3aefull,0xa3c5c533c566f697ull,0x102525942535b14aull,0xab59597959f220b2ull,0xd084842a8454ae15ull,0xc57272d572b7a7e4ull,0xec3939e439d5dd72ull,0x164c4c2d4c5a6198ull,0x945e5e655eca3bbcull,0x9f7878fd78e785f0ull,0xe53838e038ddd870ull,0x988c8c0a8c148605ull,0x17d1d163d1c6b2bfull,0xe4a5a5aea5410b57ull,0xa1e2e2afe2434dd9ull,0x4e616199612ff8c2ull,0x42b3b3f6b3f1457bull,0x342121842115a542ull,0x089c9c4a9c94d625ull,0xee1e1e781ef0663cull,0x6143431143225286ull,0xb1c7c73bc776fc93ull,0x4ffcfcd7fcb32be5ull,0x2404041004201408ull,0xe351515951b208a2ull,0x2599995e99bcc72full,0x226d6da96d4fc4daull,0x650d0d340d68391aull,0x79fafacffa8335e9ull,0x69dfdf5bdfb684a3ull,0xa97e7ee57ed79bfcull,0x19242490243db448ull,0xfe3b3bec3bc5d776ull,0x9aabab96ab313d4bull,0xf0cece1fce3ed181ull,0x9911114411885522ull,0x838f8f068f0c8903ull,0x044e4e254e4a6b9cull,0x66b7b7e6b7d15173ull,0xe0ebeb8beb0b60cbull,0xc13c3cf03cfdcc78ull,0xfd81813e817cbf1full,0x4094946a94d4fe35ull,0x1cf7f7fbf7eb0cf3ull,0x18b9b9deb9a1676full,0x8b13134c13985f26ull,0x512c2cb02c7d9c58ull,0x05d3d36bd3d6b8bbull,0x8ce7e7bbe76b5cd3ull,0x396e6ea56e57cbdcull,0xaac4c437c46ef395ull,0x1b03030c03180f06ull,0xdc565645568a13acull,0x5e44440d441a4988ull,0xa07f7fe17fdf9efeull,0x88a9a99ea921374full,0x672a2aa82a4d8254ull,0x0abbbbd6bbb16d6bull,0x87c1c123c146e29full,0xf153535153a202a6ull,0x72dcdc57dcae8ba5ull,0x530b0b2c0b582716ull,0x019d9d4e9d9cd327ull,0x2b6c6cad6c47c1d8ull,0xa43131c43195f562ull,0xf37474cd7487b9e8ull,0x15f6f6fff6e309f1ull,0x4c464605460a438cull,0xa5acac8aac092645ull,0xb589891e893c970full,0xb414145014a04428ull,0xbae1e1a3e15b42dfull,0xa616165816b04e2cull,0xf73a3ae83acdd274ull,0x066969b9696fd0d2ull,0x4109092409482d12ull,0xd77070dd70a7ade0ull,0x6fb6b6e2b6d95471ull,0x1ed0d067d0ceb7bdull,0xd6eded93ed3b7ec7ull,0xe2cccc17cc2edb85ull,0x68424215422a5784ull,0x2c98985a98b4c22dull,0xeda4a4aaa4490e55ull,0x752828a0285d8850ull,0x865c5c6d5cda31b8ull,0x6bf8f8c7f8933fedull,0xc28686228644a411ull};
static const u64 WROW2[256] = {0x30d818186018c078ull,0x462623238c2305afull,0x91b8c6c63fc67ef9ull,0xcdfbe8e887e8136full,0x13cb878726874ca1ull,0x6d11b8b8dab8a962ull,0x0209010104010805ull,0x9e0d4f4f214f426eull,0x6c9b3636d836adeeull,0x51ffa6a6a2a65904ull,0xb90cd2d26fd2debdull,0xf70ef5f5f3f5fb06ull,0xf2967979f979ef80ull,0xde306f6fa16f5fceull,0x3f6d91917e91fcefull,0xa4f852525552aa07ull,0xc04760609d6027fdull,0x6535bcbccabc8976ull,0x2b379b9b569baccdull,0x018a8e8e028e048cull,0x5bd2a3a3b6a37115ull,0x186c0c0c300c603cull,0xf6847b7bf17bff8aull,0x6a803535d435b5e1ull,0x3af51d1d741de869ull,0xddb3e0e0a7e05347ull,0xb321d7d77bd7f6acull,0x999cc2c22fc25eedull,0x5c432e2eb82e6d96ull,0x96294b4b314b627aull,0xe15dfefedffea321ull,0xaed5575741578216ull,0x2abd15155415a841ull,0xeee87777c1779fb6ull,0x6e923737dc37a5ebull,0xd79ee5e5b3e57b56ull,0x23139f9f469f8cd9ull,0xfd23f0f0e7f0d317ull,0x94204a4a354a6a7full,0xa944dada4fda9e95ull,0xb0a258587d58fa25ull,0x8fcfc9c903c906caull,0x527c2929a429558dull,0x145a0a0a280a5022ull,0x7f50b1b1feb1e14full,0x5dc9a0a0baa0691aull,0xd6146b6bb16b7fdaull,0x17d985852e855cabull,0x673cbdbdcebd8173ull,0xba8f5d5d695dd234ull,0x2090101040108050ull,0xf507f4f4f7f4f303ull,0x8bddcbcb0bcb16c0ull,0x7cd33e3ef83eedc6ull,0x0a2d050514052811ull,0xce78676781671fe6ull,0xd597e4e4b7e47353ull,0x4e0227279c2725bbull,0x8273414119413258ull,0x0ba78b8b168b2c9dull,0x53f6a7a7a6a75101ull,0xfab27d7de97dcf94ull,0x374995956e95dcfbull,0xad56d8d847d88e9full,0xeb70fbfbcbfb8b30ull,0xc1cdeeee9fee2371ull,0xf8bb7c7ced7cc791ull,0xcc716666856617e3ull,0xa77bdddd53dda68eull,0x2eaf17175c17b84bull,0x8e45474701470246ull,0x211a9e9e429e84dcull,0x89d4caca0fca1ec5ull,0x5a582d2db42d7599ull,0x632ebfbfc6bf9179ull,0x0e3f07071c07381bull,0x47acadad8ead0123ull,0xb4b05a5a755aea2full,0x1bef838336836cb5ull,0x66b63333cc3385ffull,0xc65c636391633ff2ull,0x041202020802100aull,0x4993aaaa92aa3938ull,0xe2de7171d971afa8ull,0x8dc6c8c807c80ecfull,0x32d119196419c87dull,0x923b494939497270ull,0xaf5fd9d943d9869aull,0xf931f2f2eff2c31dull,0xdba8e3e3abe34b48ull,0xb6b95b5b715be22aull,0x0dbc88881a883492ull,0x293e9a9a529aa4c8ull,0x4c0b262698262dbeull,0x64bf3232c8328dfaull,0x7d59b0b0fab0e94aull,0xcff2e9e983e91b6aull,0x1e770f0f3c0f7833ull,0xb733d5d573d5e6a6ull,0x1df480803a8074baull,0x6127bebec2be997cull,0x87ebcdcd13cd26deull,0x68893434d034bde4ull,0x903248483d487a75ull,0xe354ffffdbffab24ull,0xf48d7a7af57af78full,0x3d6490907a90f4eaull,0xbe9d5f5f615fc23eull,0x403d202080201da0ull,0xd00f6868bd6867d5ull,0x34ca1a1a681ad072ull,0x41b7aeae82ae192cull,0x757db4b4eab4c95eull,0xa8ce54544d549a19ull,0x3b7f93937693ece5ull,0x442f222288220daaull,0xc86364648d6407e9ull,0xff2af1f1e3f1db12ull,0xe6cc7373d173bfa2ull,0x248212124812905aull,0x807a40401d403a5dull,0x1048080820084028ull,0x9b95c3c32bc356e8ull,0xc5dfecec97ec337bull,0xab4ddbdb4bdb9690ull,0x5fc0a1a1bea1611full,0x07918d8d0e8d1c83ull,0x7ac83d3df43df5c9ull,0x335b97976697ccf1ull,0x0000000000000000ull,0x83f9cfcf1bcf36d4ull,0x566e2b2bac2b4587ull,0xece17676c57697b3ull,0x19e68282328264b0ull,0xb128d6d67fd6fea9ull,0x36c31b1b6c1bd877ull,0x7774b5b5eeb5c15bull,0x43beafaf86af1129ull,0xd41d6a6ab56a77dfull,0xa0ea50505d50ba0dull,0x8a5745450945124cull,0xfb38f3f3ebf3cb18ull,0x60ad3030c0309df0ull,0xc3c4efef9bef2b74ull,0x7eda3f3ffc3fe5c3ull,0xaac755554955921cull,0x59dba2a2b2a27910ull,0xc9e9eaea8fea0365ull,0xca6a656589650fecull,0x6903babad2bab968ull,0x5e4a2f2fbc2f6593ull,0x9d8ec0c027c04ee7ull,0xa160dede5fdebe81ull,0x38fc1c1c701ce06cull,0xe746fdfdd3fdbb2eull,0x9a1f4d4d294d5264ull,0x397692927292e4e0ull,0xeafa7575c9758fbcull,0x0c3606061806301eull,0x09ae8a8a128a2498ull,0x794bb2b2f2b2f940ull,0xd185e6e6bfe66359ull,0x1c7e0e0e380e7036ull,0x3ee71f1f7c1ff863ull,0xc4556262956237f7ull,0xb53ad4d477d4eea3ull,0x4d81a8a89aa82932ull,0x315296966296c4f4ull,0xef62f9f9c3f99b3aull,0x97a3c5c533c566f6ull,0x4a102525942535b1ull,0xb2ab59597959f220ull,0x15d084842a8454aeull,0xe4c57272d572b7a7ull,0x72ec3939e439d5ddull,0x98164c4c2d4c5a61ull,0xbc945e5e655eca3bull,0xf09f7878fd78e785ull,0x70e53838e038ddd8ull,0x05988c8c0a8c1486ull,0xbf17d1d163d1c6b2ull,0x57e4a5a5aea5410bull,0xd9a1e2e2afe2434dull,0xc24e616199612ff8ull,0x7b42b3b3f6b3f145ull,0x42342121842115a5ull,0x25089c9c4a9c94d6ull,0x3cee1e1e781ef066ull,0x8661434311432252ull,0x93b1c7c73bc776fcull,0xe54ffcfcd7fcb32bull,0x0824040410042014ull,0xa2e351515951b208ull,0x2f2599995e99bcc7ull,0xda226d6da96d4fc4ull,0x1a650d0d340d6839ull,0xe979fafacffa8335ull,0xa369dfdf5bdfb684ull,0xfca97e7ee57ed79bull,0x4819242490243db4ull,0x76fe3b3bec3bc5d7ull,0x4b9aabab96ab313dull,0x81f0cece1fce3ed1ull,0x2299111144118855ull,0x03838f8f068f0c89ull,0x9c044e4e254e4a6bull,0x7366b7b7e6b7d151ull,0xcbe0ebeb8beb0b60ull,0x78c13c3cf03cfdccull,0x1ffd81813e817cbfull,0x354094946a94d4feull,0xf31cf7f7fbf7eb0cull,0x6f18b9b9deb9a167ull,0x268b13134c13985full,0x58512c2cb02c7d9cull,0xbb05d3d36bd3d6b8ull,0xd38ce7e7bbe76b5cull,0xdc396e6ea56e57cbull,0x95aac4c437c46ef3ull,0x061b03030c03180full,0xacdc565645568a13ull,0x885e44440d441a49ull,0xfea07f7fe17fdf9eull,0x4f88a9a99ea92137ull,0x54672a2aa82a4d82ull,0x6b0abbbbd6bbb16dull,0x9f87c1c123c146e2ull,0xa6f153535153a202ull,0xa572dcdc57dcae8bull,0x16530b0b2c0b5827ull,0x27019d9d4e9d9cd3ull,0xd82b6c6cad6c47c1ull,0x62a43131c43195f5ull,0xe8f37474cd7487b9ull,0xf115f6f6fff6e309ull,0x8c4c464605460a43ull,0x45a5acac8aac0926ull,0x0fb589891e893c97ull,0x28b414145014a044ull,0xdfbae1e1a3e15b42ull,0x2ca616165816b04eull,0x74f73a3ae83acdd2ull,0xd2066969b9696fd0ull,0x124109092409482dull,0xe0d77070dd70a7adull,0x716fb6b6e2b6d954ull,0xbd1ed0d067d0ceb7ull,0xc7d6eded93ed3b7eull,0x85e2cccc17cc2edbull,0x8468424215422a57ull,0x2d2c98985a98b4c2ull,0x55eda4a4aaa4490eull,0x50752828a0285d88ull,0xb8865c5c6d5cda31ull,0xed6bf8f8c7f8933full,0x11c28686228644a4ull};
static const u64 WROW3[256] = {0x7830d818186018c0ull,0xaf462623238c2305ull,0xf991b8c6c63fc67eull,0x6fcdfbe8e887e813ull,0xa113cb878726874cull,0x626d11b8b8dab8a9ull,0x0502090101040108ull,0x6e9e0d4f4f214f42ull,0xee6c9b3636d836adull,0x0451ffa6a6a2a659ull,0xbdb90cd2d26fd2deull,0x06f70ef5f5f3f5fbull,0x80f2967979f979efull,0xcede306f6fa16f5full,0xef3f6d91917e91fcull,0x07a4f852525552aaull,0xfdc04760609d6027ull,0x766535bcbccabc89ull,0xcd2b379b9b569bacull,0x8c018a8e8e028e04ull,0x155bd2a3a3b6a371ull,0x3c186c0c0c300c60ull,0x8af6847b7bf17bffull,0xe16a803535d435b5ull,0x693af51d1d741de8ull,0x47ddb3e0e0a7e053ull,0xacb321d7d77bd7f6ull,0xed999cc2c22fc25eull,0x965c432e2eb82e6dull,0x7a96294b4b314b62ull,0x21e15dfefedffea3ull,0x16aed55757415782ull,0x412abd15155415a8ull,0xb6eee87777c1779full,0xeb6e923737dc37a5ull,0x56d79ee5e5b3e57bull,0xd923139f9f469f8cull,0x17fd23f0f0e7f0d3ull,0x7f94204a4a354a6aull,0x95a944dada4fda9eull,0x25b0a258587d58faull,0xca8fcfc9c903c906ull,0x8d527c2929a42955ull,0x22145a0a0a280a50ull,0x4f7f50b1b1feb1e1ull,0x1a5dc9a0a0baa069ull,0xdad6146b6bb16b7full,0xab17d985852e855cull,0x73673cbdbdcebd81ull,0x34ba8f5d5d695dd2ull,0x5020901010401080ull,0x03f507f4f4f7f4f3ull,0xc08bddcbcb0bcb16ull,0xc67cd33e3ef83eedull,0x110a2d0505140528ull,0xe6ce78676781671full,0x53d597e4e4b7e473ull,0xbb4e0227279c2725ull,0x5882734141194132ull,0x9d0ba78b8b168b2cull,0x0153f6a7a7a6a751ull,0x94fab27d7de97dcfull,0xfb374995956e95dcull,0x9fad56d8d847d88eull,0x30eb70fbfbcbfb8bull,0x71c1cdeeee9fee23ull,0x91f8bb7c7ced7cc7ull,0xe3cc716666856617ull,0x8ea77bdddd53dda6ull,0x4b2eaf17175c17b8ull,0x468e454747014702ull,0xdc211a9e9e429e84ull,0xc589d4caca0fca1eull,0x995a582d2db42d75ull,0x79632ebfbfc6bf91ull,0x1b0e3f07071c0738ull,0x2347acadad8ead01ull,0x2fb4b05a5a755aeaull,0xb51bef838336836cull,0xff66b63333cc3385ull,0xf2c65c636391633full,0x0a04120202080210ull,0x384993aaaa92aa39ull,0xa8e2de7171d971afull,0xcf8dc6c8c807c80eull,0x7d32d119196419c8ull,0x70923b4949394972ull,0x9aaf5fd9d943d986ull,0x1df931f2f2eff2c3ull,0x48dba8e3e3abe34bull,0x2ab6b95b5b715be2ull,0x920dbc88881a8834ull,0xc8293e9a9a529aa4ull,0xbe4c0b262698262dull,0xfa64bf3232c8328dull,0x4a7d59b0b0fab0e9ull,0x6acff2e9e983e91bull,0x331e770f0f3c0f78ull,0xa6b733d5d573d5e6ull,0xba1df480803a8074ull,0x7c6127bebec2be99ull,0xde87ebcdcd13cd26ull,0xe468893434d034bdull,0x75903248483d487aull,0x24e354ffffdbffabull,0x8ff48d7a7af57af7ull,0xea3d6490907a90f4ull,0x3ebe9d5f5f615fc2ull,0xa0403d202080201dull,0xd5d00f6868bd6867ull,0x7234ca1a1a681ad0ull,0x2c41b7aeae82ae19ull,0x5e757db4b4eab4c9ull,0x19a8ce54544d549aull,0xe53b7f93937693ecull,0xaa442f222288220dull,0xe9c86364648d6407ull,0x12ff2af1f1e3f1dbull,0xa2e6cc7373d173bfull,0x5a24821212481290ull,0x5d807a40401d403aull,0x2810480808200840ull,0xe89b95c3c32bc356ull,0x7bc5dfecec97ec33ull,0x90ab4ddbdb4bdb96ull,0x1f5fc0a1a1bea161ull,0x8307918d8d0e8d1cull,0xc97ac83d3df43df5ull,0xf1335b97976697ccull,0x0000000000000000ull,0xd483f9cfcf1bcf36ull,0x87566e2b2bac2b45ull,0xb3ece17676c57697ull,0xb019e68282328264ull,0xa9b128d6d67fd6feull,0x7736c31b1b6c1bd8ull,0x5b7774b5b5eeb5c1ull,0x2943beafaf86af11ull,0xdfd41d6a6ab56a77ull,0x0da0ea50505d50baull,0x4c8a574545094512ull,0x18fb38f3f3ebf3cbull,0xf060ad3030c0309dull,0x74c3c4efef9bef2bull,0xc37eda3f3ffc3fe5ull,0x1caac75555495592ull,0x1059dba2a2b2a279ull,0x65c9e9eaea8fea03ull,0xecca6a656589650full,0x686903babad2bab9ull,0x935e4a2f2fbc2f65ull,0xe79d8ec0c027c04eull,0x81a160dede5fdebeull,0x6c38fc1c1c701ce0ull,0x2ee746fdfdd3fdbbull,0x649a1f4d4d294d52ull,0xe0397692927292e4ull,0xbceafa7575c9758full,0x1e0c360606180630ull,0x9809ae8a8a128a24ull,0x40794bb2b2f2b2f9ull,0x59d185e6e6bfe663ull,0x361c7e0e0e380e70ull,0x633ee71f1f7c1ff8ull,0xf7c4556262956237ull,0xa3b53ad4d477d4eeull,0x324d81a8a89aa829ull,0xf4315296966296c4ull,0x3aef62f9f9c3f99bull,0xf697a3c5c533c566ull,0xb14a102525942535ull,0x20b2ab59597959f2ull,0xae15d084842a8454ull,0xa7e4c57272d572b7ull,0xdd72ec3939e439d5ull,0x6198164c4c2d4c5aull,0x3bbc945e5e655ecaull,0x85f09f7878fd78e7ull,0xd870e53838e038ddull,0x8605988c8c0a8c14ull,0xb2bf17d1d163d1c6ull,0x0b57e4a5a5aea541ull,0x4dd9a1e2e2afe243ull,0xf8c24e616199612full,0x457b42b3b3f6b3f1ull,0xa542342121842115ull,0xd625089c9c4a9c94ull,0x663cee1e1e781ef0ull,0x5286614343114322ull,0xfc93b1c7c73bc776ull,0x2be54ffcfcd7fcb3ull,0x1408240404100420ull,0x08a2e351515951b2ull,0xc72f2599995e99bcull,0xc4da226d6da96d4full,0x391a650d0d340d68ull,0x35e979fafacffa83ull,0x84a369dfdf5bdfb6ull,0x9bfca97e7ee57ed7ull,0xb44819242490243dull,0xd776fe3b3bec3bc5ull,0x3d4b9aabab96ab31ull,0xd181f0cece1fce3eull,0x5522991111441188ull,0x8903838f8f068f0cull,0x6b9c044e4e254e4aull,0x517366b7b7e6b7d1ull,0x60cbe0ebeb8beb0bull,0xcc78c13c3cf03cfdull,0xbf1ffd81813e817cull,0xfe354094946a94d4ull,0x0cf31cf7f7fbf7ebull,0x676f18b9b9deb9a1ull,0x5f268b13134c1398ull,0x9c58512c2cb02c7dull,0xb8bb05d3d36bd3d6ull,0x5cd38ce7e7bbe76bull,0xcbdc396e6ea56e57ull,0xf395aac4c437c46eull,0x0f061b03030c0318ull,0x13acdc565645568aull,0x49885e44440d441aull,0x9efea07f7fe17fdfull,0x374f88a9a99ea921ull,0x8254672a2aa82a4dull,0x6d6b0abbbbd6bbb1ull,0xe29f87c1c123c146ull,0x02a6f153535153a2ull,0x8ba572dcdc57dcaeull,0x2716530b0b2c0b58ull,0xd327019d9d4e9d9cull,0xc1d82b6c6cad6c47ull,0xf562a43131c43195ull,0xb9e8f37474cd7487ull,0x09f115f6f6fff6e3ull,0x438c4c464605460aull,0x2645a5acac8aac09ull,0x970fb589891e893cull,0x4428b414145014a0ull,0x42dfbae1e1a3e15bull,0x4e2ca616165816b0ull,0xd274f73a3ae83acdull,0xd0d2066969b9696full,0x2d12410909240948ull,0xade0d77070dd70a7ull,0x54716fb6b6e2b6d9ull,0xb7bd1ed0d067d0ceull,0x7ec7d6eded93ed3bull,0xdb85e2cccc17cc2eull,0x578468424215422aull,0xc22d2c98985a98b4ull,0x0e55eda4a4aaa449ull,0x8850752828a0285dull,0x31b8865c5c6d5cdaull,0x3fed6bf8f8c7f893ull,0xa411c28686228644ull};
static const u64 WROW4[256] = {0xc07830d818186018ull,0x05af462623238c23ull,0x7ef991b8c6c63fc6ull,0x136fcdfbe8e887e8ull,0x4ca113cb87872687ull,0xa9626d11b8b8dab8ull,0x0805020901010401ull,0x426e9e0d4f4f214full,0xadee6c9b3636d836ull,0x590451ffa6a6a2a6ull,0xdebdb90cd2d26fd2ull,0xfb06f70ef5f5f3f5ull,0xef80f2967979f979ull,0x5fcede306f6fa16full,0xfcef3f6d91917e91ull,0xaa07a4f852525552ull,0x27fdc04760609d60ull,0x89766535bcbccabcull,0xaccd2b379b9b569bull,0x048c018a8e8e028eull,0x71155bd2a3a3b6a3ull,0x603c186c0c0c300cull,0xff8af6847b7bf17bull,0xb5e16a803535d435ull,0xe8693af51d1d741dull,0x5347ddb3e0e0a7e0ull,0xf6acb321d7d77bd7ull,0x5eed999cc2c22fc2ull,0x6d965c432e2eb82eull,0x627a96294b4b314bull,0xa321e15dfefedffeull,0x8216aed557574157ull,0xa8412abd15155415ull,0x9fb6eee87777c177ull,0xa5eb6e923737dc37ull,0x7b56d79ee5e5b3e5ull,0x8cd923139f9f469full,0xd317fd23f0f0e7f0ull,0x6a7f94204a4a354aull,0x9e95a944dada4fdaull,0xfa25b0a258587d58ull,0x06ca8fcfc9c903c9ull,0x558d527c2929a429ull,0x5022145a0a0a280aull,0xe14f7f50b1b1feb1ull,0x691a5dc9a0a0baa0ull,0x7fdad6146b6bb16bull,0x5cab17d985852e85ull,0x8173673cbdbdcebdull,0xd234ba8f5d5d695dull,0x8050209010104010ull,0xf303f507f4f4f7f4ull,0x16c08bddcbcb0bcbull,0xedc67cd33e3ef83eull,0x28110a2d05051405ull,0x1fe6ce7867678167ull,0x7353d597e4e4b7e4ull,0x25bb4e0227279c27ull,0x3258827341411941ull,0x2c9d0ba78b8b168bull,0x510153f6a7a7a6a7ull,0xcf94fab27d7de97dull,0xdcfb374995956e95ull,0x8e9fad56d8d847d8ull,0x8b30eb70fbfbcbfbull,0x2371c1cdeeee9feeull,0xc791f8bb7c7ced7cull,0x17e3cc7166668566ull,0xa68ea77bdddd53ddull,0xb84b2eaf17175c17ull,0x02468e4547470147ull,0x84dc211a9e9e429eull,0x1ec589d4caca0fcaull,0x75995a582d2db42dull,0x9179632ebfbfc6bfull,0x381b0e3f07071c07ull,0x012347acadad8eadull,0xea2fb4b05a5a755aull,0x6cb51bef83833683ull,0x85ff66b63333cc33ull,0x3ff2c65c63639163ull,0x100a041202020802ull,0x39384993aaaa92aaull,0xafa8e2de7171d971ull,0x0ecf8dc6c8c807c8ull,0xc87d32d119196419ull,0x7270923b49493949ull,0x869aaf5fd9d943d9ull,0xc31df931f2f2eff2ull,0x4b48dba8e3e3abe3ull,0xe22ab6b95b5b715bull,0x34920dbc88881a88ull,0xa4c8293e9a9a529aull,0x2dbe4c0b26269826ull,0x8dfa64bf3232c832ull,0xe94a7d59b0b0fab0ull,0x1b6acff2e9e983e9ull,0x78331e770f0f3c0full,0xe6a6b733d5d573d5ull,0x74ba1df480803a80ull,0x997c6127bebec2beull,0x26de87ebcdcd13cdull,0xbde468893434d034ull,0x7a75903248483d48ull,0xab24e354ffffdbffull,0xf78ff48d7a7af57aull,0xf4ea3d6490907a90ull,0xc23ebe9d5f5f615full,0x1da0403d20208020ull,0x67d5d00f6868bd68ull,0xd07234ca1a1a681aull,0x192c41b7aeae82aeull,0xc95e757db4b4eab4ull,0x9a19a8ce54544d54ull,0xece53b7f93937693ull,0x0daa442f22228822ull,0x07e9c86364648d64ull,0xdb12ff2af1f1e3f1ull,0xbfa2e6cc7373d173ull,0x905a248212124812ull,0x3a5d807a40401d40ull,0x4028104808082008ull,0x56e89b95c3c32bc3ull,0x337bc5dfecec97ecull,0x9690ab4ddbdb4bdbull,0x611f5fc0a1a1bea1ull,0x1c8307918d8d0e8dull,0xf5c97ac83d3df43dull,0xccf1335b97976697ull,0x0000000000000000ull,0x36d483f9cfcf1bcfull,0x4587566e2b2bac2bull,0x97b3ece17676c576ull,0x64b019e682823282ull,0xfea9b128d6d67fd6ull,0xd87736c31b1b6c1bull,0xc15b7774b5b5eeb5ull,0x112943beafaf86afull,0x77dfd41d6a6ab56aull,0xba0da0ea50505d50ull,0x124c8a5745450945ull,0xcb18fb38f3f3ebf3ull,0x9df060ad3030c030ull,0x2b74c3c4efef9befull,0xe5c37eda3f3ffc3full,0x921caac755554955ull,0x791059dba2a2b2a2ull,0x0365c9e9eaea8feaull,0x0fecca6a65658965ull,0xb9686903babad2baull,0x65935e4a2f2fbc2full,0x4ee79d8ec0c027c0ull,0xbe81a160dede5fdeull,0xe06c38fc1c1c701cull,0xbb2ee746fdfdd3fdull,0x52649a1f4d4d294dull,0xe4e0397692927292ull,0x8fbceafa7575c975ull,0x301e0c3606061806ull,0x249809ae8a8a128aull,0xf940794bb2b2f2b2ull,0x6359d185e6e6bfe6ull,0x70361c7e0e0e380eull,0xf8633ee71f1f7c1full,0x37f7c45562629562ull,0xeea3b53ad4d477d4ull,0x29324d81a8a89aa8ull,0xc4f4315296966296ull,0x9b3aef62f9f9c3f9ull,0x66f697a3c5c533c5ull,0x35b14a1025259425ull,0xf220b2ab59597959ull,0x54ae15d084842a84ull,0xb7a7e4c57272d572ull,0xd5dd72ec3939e439ull,0x5a6198164c4c2d4cull,0xca3bbc945e5e655eull,0xe785f09f7878fd78ull,0xddd870e53838e038ull,0x148605988c8c0a8cull,0xc6b2bf17d1d163d1ull,0x410b57e4a5a5aea5ull,0x434dd9a1e2e2afe2ull,0x2ff8c24e61619961ull,0xf1457b42b3b3f6b3ull,0x15a5423421218421ull,0x94d625089c9c4a9cull,0xf0663cee1e1e781eull,0x2252866143431143ull,0x76fc93b1c7c73bc7ull,0xb32be54ffcfcd7fcull,0x2014082404041004ull,0xb208a2e351515951ull,0xbcc72f2599995e99ull,0x4fc4da226d6da96dull,0x68391a650d0d340dull,0x8335e979fafacffaull,0xb684a369dfdf5bdfull,0xd79bfca97e7ee57eull,0x3db4481924249024ull,0xc5d776fe3b3bec3bull,0x313d4b9aabab96abull,0x3ed181f0cece1fceull,0x8855229911114411ull,0x0c8903838f8f068full,0x4a6b9c044e4e254eull,0xd1517366b7b7e6b7ull,0x0b60cbe0ebeb8bebull,0xfdcc78c13c3cf03cull,0x7cbf1ffd81813e81ull,0xd4fe354094946a94ull,0xeb0cf31cf7f7fbf7ull,0xa1676f18b9b9deb9ull,0x985f268b13134c13ull,0x7d9c58512c2cb02cull,0xd6b8bb05d3d36bd3ull,0x6b5cd38ce7e7bbe7ull,0x57cbdc396e6ea56eull,0x6ef395aac4c437c4ull,0x180f061b03030c03ull,0x8a13acdc56564556ull,0x1a49885e44440d44ull,0xdf9efea07f7fe17full,0x21374f88a9a99ea9ull,0x4d8254672a2aa82aull,0xb16d6b0abbbbd6bbull,0x46e29f87c1c123c1ull,0xa202a6f153535153ull,0xae8ba572dcdc57dcull,0x582716530b0b2c0bull,0x9cd327019d9d4e9dull,0x47c1d82b6c6cad6cull,0x95f562a43131c431ull,0x87b9e8f37474cd74ull,0xe309f115f6f6fff6ull,0x0a438c4c46460546ull,0x092645a5acac8aacull,0x3c970fb589891e89ull,0xa04428b414145014ull,0x5b42dfbae1e1a3e1ull,0xb04e2ca616165816ull,0xcdd274f73a3ae83aull,0x6fd0d2066969b969ull,0x482d124109092409ull,0xa7ade0d77070dd70ull,0xd954716fb6b6e2b6ull,0xceb7bd1ed0d067d0ull,0x3b7ec7d6eded93edull,0x2edb85e2cccc17ccull,0x2a57846842421542ull,0xb4c22d2c98985a98ull,0x490e55eda4a4aaa4ull,0x5d8850752828a028ull,0xda31b8865c5c6d5cull,0x933fed6bf8f8c7f8ull,0x44a411c286862286ull};
static const u64 WROW5[256] = {0x18c07830d8181860ull,0x2305af462623238cull,0xc67ef991b8c6c63full,0xe8136fcdfbe8e887ull,0x874ca113cb878726ull,0xb8a9626d11b8b8daull,0x0108050209010104ull,0x4f426e9e0d4f4f21ull,0x36adee6c9b3636d8ull,0xa6590451ffa6a6a2ull,0xd2debdb90cd2d26full,0xf5fb06f70ef5f5f3ull,0x79ef80f2967979f9ull,0x6f5fcede306f6fa1ull,0x91fcef3f6d91917eull,0x52aa07a4f8525255ull,0x6027fdc04760609dull,0xbc89766535bcbccaull,0x9baccd2b379b9b56ull,0x8e048c018a8e8e02ull,0xa371155bd2a3a3b6ull,0x0c603c186c0c0c30ull,0x7bff8af6847b7bf1ull,0x35b5e16a803535d4ull,0x1de8693af51d1d74ull,0xe05347ddb3e0e0a7ull,0xd7f6acb321d7d77bull,0xc25eed999cc2c22full,0x2e6d965c432e2eb8ull,0x4b627a96294b4b31ull,0xfea321e15dfefedfull,0x578216aed5575741ull,0x15a8412abd151554ull,0x779fb6eee87777c1ull,0x37a5eb6e923737dcull,0xe57b56d79ee5e5b3ull,0x9f8cd923139f9f46ull,0xf0d317fd23f0f0e7ull,0x4a6a7f94204a4a35ull,0xda9e95a944dada4full,0x58fa25b0a258587dull,0xc906ca8fcfc9c903ull,0x29558d527c2929a4ull,0x0a5022145a0a0a28ull,0xb1e14f7f50b1b1feull,0xa0691a5dc9a0a0baull,0x6b7fdad6146b6bb1ull,0x855cab17d985852eull,0xbd8173673cbdbdceull,0x5dd234ba8f5d5d69ull,0x1080502090101040ull,0xf4f303f507f4f4f7ull,0xcb16c08bddcbcb0bull,0x3eedc67cd33e3ef8ull,0x0528110a2d050514ull,0x671fe6ce78676781ull,0xe47353d597e4e4b7ull,0x2725bb4e0227279cull,0x4132588273414119ull,0x8b2c9d0ba78b8b16ull,0xa7510153f6a7a7a6ull,0x7dcf94fab27d7de9ull,0x95dcfb374995956eull,0xd88e9fad56d8d847ull,0xfb8b30eb70fbfbcbull,0xee2371c1cdeeee9full,0x7cc791f8bb7c7cedull,0x6617e3cc71666685ull,0xdda68ea77bdddd53ull,0x17b84b2eaf17175cull,0x4702468e45474701ull,0x9e84dc211a9e9e42ull,0xca1ec589d4caca0full,0x2d75995a582d2db4ull,0xbf9179632ebfbfc6ull,0x07381b0e3f07071cull,0xad012347acadad8eull,0x5aea2fb4b05a5a75ull,0x836cb51bef838336ull,0x3385ff66b63333ccull,0x633ff2c65c636391ull,0x02100a0412020208ull,0xaa39384993aaaa92ull,0x71afa8e2de7171d9ull,0xc80ecf8dc6c8c807ull,0x19c87d32d1191964ull,0x497270923b494939ull,0xd9869aaf5fd9d943ull,0xf2c31df931f2f2efull,0xe34b48dba8e3e3abull,0x5be22ab6b95b5b71ull,0x8834920dbc88881aull,0x9aa4c8293e9a9a52ull,0x262dbe4c0b262698ull,0x328dfa64bf3232c8ull,0xb0e94a7d59b0b0faull,0xe91b6acff2e9e983ull,0x0f78331e770f0f3cull,0xd5e6a6b733d5d573ull,0x8074ba1df480803aull,0xbe997c6127bebec2ull,0xcd26de87ebcdcd13ull,0x34bde468893434d0ull,0x487a75903248483dull,0xffab24e354ffffdbull,0x7af78ff48d7a7af5ull,0x90f4ea3d6490907aull,0x5fc23ebe9d5f5f61ull,0x201da0403d202080ull,0x6867d5d00f6868bdull,0x1ad07234ca1a1a68ull,0xae192c41b7aeae82ull,0xb4c95e757db4b4eaull,0x549a19a8ce54544dull,0x93ece53b7f939376ull,0x220daa442f222288ull,0x6407e9c86364648dull,0xf1db12ff2af1f1e3ull,0x73bfa2e6cc7373d1ull,0x12905a2482121248ull,0x403a5d807a40401dull,0x0840281048080820ull,0xc356e89b95c3c32bull,0xec337bc5dfecec97ull,0xdb9690ab4ddbdb4bull,0xa1611f5fc0a1a1beull,0x8d1c8307918d8d0eull,0x3df5c97ac83d3df4ull,0x97ccf1335b979766ull,0x0000000000000000ull,0xcf36d483f9cfcf1bull,0x2b4587566e2b2bacull,0x7697b3ece17676c5ull,0x8264b019e6828232ull,0xd6fea9b128d6d67full,0x1bd87736c31b1b6cull,0xb5c15b7774b5b5eeull,0xaf112943beafaf86ull,0x6a77dfd41d6a6ab5ull,0x50ba0da0ea50505dull,0x45124c8a57454509ull,0xf3cb18fb38f3f3ebull,0x309df060ad3030c0ull,0xef2b74c3c4efef9bull,0x3fe5c37eda3f3ffcull,0x55921caac7555549ull,0xa2791059dba2a2b2ull,0xea0365c9e9eaea8full,0x650fecca6a656589ull,0xbab9686903babad2ull,0x2f65935e4a2f2fbcull,0xc04ee79d8ec0c027ull,0xdebe81a160dede5full,0x1ce06c38fc1c1c70ull,0xfdbb2ee746fdfdd3ull,0x4d52649a1f4d4d29ull,0x92e4e03976929272ull,0x758fbceafa7575c9ull,0x06301e0c36060618ull,0x8a249809ae8a8a12ull,0xb2f940794bb2b2f2ull,0xe66359d185e6e6bfull,0x0e70361c7e0e0e38ull,0x1ff8633ee71f1f7cull,0x6237f7c455626295ull,0xd4eea3b53ad4d477ull,0xa829324d81a8a89aull,0x96c4f43152969662ull,0xf99b3aef62f9f9c3ull,0xc566f697a3c5c533ull,0x2535b14a10252594ull,0x59f220b2ab595979ull,0x8454ae15d084842aull,0x72b7a7e4c57272d5ull,0x39d5dd72ec3939e4ull,0x4c5a6198164c4c2dull,0x5eca3bbc945e5e65ull,0x78e785f09f7878fdull,0x38ddd870e53838e0ull,0x8c148605988c8c0aull,0xd1c6b2bf17d1d163ull,0xa5410b57e4a5a5aeull,0xe2434dd9a1e2e2afull,0x612ff8c24e616199ull,0xb3f1457b42b3b3f6ull,0x2115a54234212184ull,0x9c94d625089c9c4aull,0x1ef0663cee1e1e78ull,0x4322528661434311ull,0xc776fc93b1c7c73bull,0xfcb32be54ffcfcd7ull,0x0420140824040410ull,0x51b208a2e3515159ull,0x99bcc72f2599995eull,0x6d4fc4da226d6da9ull,0x0d68391a650d0d34ull,0xfa8335e979fafacfull,0xdfb684a369dfdf5bull,0x7ed79bfca97e7ee5ull,0x243db44819242490ull,0x3bc5d776fe3b3becull,0xab313d4b9aabab96ull,0xce3ed181f0cece1full,0x1188552299111144ull,0x8f0c8903838f8f06ull,0x4e4a6b9c044e4e25ull,0xb7d1517366b7b7e6ull,0xeb0b60cbe0ebeb8bull,0x3cfdcc78c13c3cf0ull,0x817cbf1ffd81813eull,0x94d4fe354094946aull,0xf7eb0cf31cf7f7fbull,0xb9a1676f18b9b9deull,0x13985f268b13134cull,0x2c7d9c58512c2cb0ull,0xd3d6b8bb05d3d36bull,0xe76b5cd38ce7e7bbull,0x6e57cbdc396e6ea5ull,0xc46ef395aac4c437ull,0x03180f061b03030cull,0x568a13acdc565645ull,0x441a49885e44440dull,0x7fdf9efea07f7fe1ull,0xa921374f88a9a99eull,0x2a4d8254672a2aa8ull,0xbbb16d6b0abbbbd6ull,0xc146e29f87c1c123ull,0x53a202a6f1535351ull,0xdcae8ba572dcdc57ull,0x0b582716530b0b2cull,0x9d9cd327019d9d4eull,0x6c47c1d82b6c6cadull,0x3195f562a43131c4ull,0x7487b9e8f37474cdull,0xf6e309f115f6f6ffull,0x460a438c4c464605ull,0xac092645a5acac8aull,0x893c970fb589891eull,0x14a04428b4141450ull,0xe15b42dfbae1e1a3ull,0x16b04e2ca6161658ull,0x3acdd274f73a3ae8ull,0x696fd0d2066969b9ull,0x09482d1241090924ull,0x70a7ade0d77070ddull,0xb6d954716fb6b6e2ull,0xd0ceb7bd1ed0d067ull,0xed3b7ec7d6eded93ull,0xcc2edb85e2cccc17ull,0x422a578468424215ull,0x98b4c22d2c98985aull,0xa4490e55eda4a4aaull,0x285d8850752828a0ull,0x5cda31b8865c5c6dull,0xf8933fed6bf8f8c7ull,0x8644a411c2868622ull};
static const u64 WROW6[256] = {0x6018c07830d81818ull,0x8c2305af46262323ull,0x3fc67ef991b8c6c6ull,0x87e8136fcdfbe8e8ull,0x26874ca113cb8787ull,0xdab8a9626d11b8b8ull,0x0401080502090101ull,0x214f426e9e0d4f4full,0xd836adee6c9b3636ull,0xa2a6590451ffa6a6ull,0x6fd2debdb90cd2d2ull,0xf3f5fb06f70ef5f5ull,0xf979ef80f2967979ull,0xa16f5fcede306f6full,0x7e91fcef3f6d9191ull,0x5552aa07a4f85252ull,0x9d6027fdc0476060ull,0xcabc89766535bcbcull,0x569baccd2b379b9bull,0x028e048c018a8e8eull,0xb6a371155bd2a3a3ull,0x300c603c186c0c0cull,0xf17bff8af6847b7bull,0xd435b5e16a803535ull,0x741de8693af51d1dull,0xa7e05347ddb3e0e0ull,0x7bd7f6acb321d7d7ull,0x2fc25eed999cc2c2ull,0xb82e6d965c432e2eull,0x314b627a96294b4bull,0xdffea321e15dfefeull,0x41578216aed55757ull,0x5415a8412abd1515ull,0xc1779fb6eee87777ull,0xdc37a5eb6e923737ull,0xb3e57b56d79ee5e5ull,0x469f8cd923139f9full,0xe7f0d317fd23f0f0ull,0x354a6a7f94204a4aull,0x4fda9e95a944dadaull,0x7d58fa25b0a25858ull,0x03c906ca8fcfc9c9ull,0xa429558d527c2929ull,0x280a5022145a0a0aull,0xfeb1e14f7f50b1b1ull,0xbaa0691a5dc9a0a0ull,0xb16b7fdad6146b6bull,0x2e855cab17d98585ull,0xcebd8173673cbdbdull,0x695dd234ba8f5d5dull,0x4010805020901010ull,0xf7f4f303f507f4f4ull,0x0bcb16c08bddcbcbull,0xf83eedc67cd33e3eull,0x140528110a2d0505ull,0x81671fe6ce786767ull,0xb7e47353d597e4e4ull,0x9c2725bb4e022727ull,0x1941325882734141ull,0x168b2c9d0ba78b8bull,0xa6a7510153f6a7a7ull,0xe97dcf94fab27d7dull,0x6e95dcfb37499595ull,0x47d88e9fad56d8d8ull,0xcbfb8b30eb70fbfbull,0x9fee2371c1cdeeeeull,0xed7cc791f8bb7c7cull,0x856617e3cc716666ull,0x53dda68ea77bddddull,0x5c17b84b2eaf1717ull,0x014702468e454747ull,0x429e84dc211a9e9eull,0x0fca1ec589d4cacaull,0xb42d75995a582d2dull,0xc6bf9179632ebfbfull,0x1c07381b0e3f0707ull,0x8ead012347acadadull,0x755aea2fb4b05a5aull,0x36836cb51bef8383ull,0xcc3385ff66b63333ull,0x91633ff2c65c6363ull,0x0802100a04120202ull,0x92aa39384993aaaaull,0xd971afa8e2de7171ull,0x07c80ecf8dc6c8c8ull,0x6419c87d32d11919ull,0x39497270923b4949ull,0x43d9869aaf5fd9d9ull,0xeff2c31df931f2f2ull,0xabe34b48dba8e3e3ull,0x715be22ab6b95b5bull,0x1a8834920dbc8888ull,0x529aa4c8293e9a9aull,0x98262dbe4c0b2626ull,0xc8328dfa64bf3232ull,0xfab0e94a7d59b0b0ull,0x83e91b6acff2e9e9ull,0x3c0f78331e770f0full,0x73d5e6a6b733d5d5ull,0x3a8074ba1df48080ull,0xc2be997c6127bebeull,0x13cd26de87ebcdcdull,0xd034bde468893434ull,0x3d487a7590324848ull,0xdbffab24e354ffffull,0xf57af78ff48d7a7aull,0x7a90f4ea3d649090ull,0x615fc23ebe9d5f5full,0x80201da0403d2020ull,0xbd6867d5d00f6868ull,0x681ad07234ca1a1aull,0x82ae192c41b7aeaeull,0xeab4c95e757db4b4ull,0x4d549a19a8ce5454ull,0x7693ece53b7f9393ull,0x88220daa442f2222ull,0x8d6407e9c8636464ull,0xe3f1db12ff2af1f1ull,0xd173bfa2e6cc7373ull,0x4812905a24821212ull,0x1d403a5d807a4040ull,0x2008402810480808ull,0x2bc356e89b95c3c3ull,0x97ec337bc5dfececull,0x4bdb9690ab4ddbdbull,0xbea1611f5fc0a1a1ull,0x0e8d1c8307918d8dull,0xf43df5c97ac83d3dull,0x6697ccf1335b9797ull,0x0000000000000000ull,0x1bcf36d483f9cfcfull,0xac2b4587566e2b2bull,0xc57697b3ece17676ull,0x328264b019e68282ull,0x7fd6fea9b128d6d6ull,0x6c1bd87736c31b1bull,0xeeb5c15b7774b5b5ull,0x86af112943beafafull,0xb56a77dfd41d6a6aull,0x5d50ba0da0ea5050ull,0x0945124c8a574545ull,0xebf3cb18fb38f3f3ull,0xc0309df060ad3030ull,0x9bef2b74c3c4efefull,0xfc3fe5c37eda3f3full,0x4955921caac75555ull,0xb2a2791059dba2a2ull,0x8fea0365c9e9eaeaull,0x89650fecca6a6565ull,0xd2bab9686903babaull,0xbc2f65935e4a2f2full,0x27c04ee79d8ec0c0ull,0x5fdebe81a160dedeull,0x701ce06c38fc1c1cull,0xd3fdbb2ee746fdfdull,0x294d52649a1f4d4dull,0x7292e4e039769292ull,0xc9758fbceafa7575ull,0x1806301e0c360606ull,0x128a249809ae8a8aull,0xf2b2f940794bb2b2ull,0xbfe66359d185e6e6ull,0x380e70361c7e0e0eull,0x7c1ff8633ee71f1full,0x956237f7c4556262ull,0x77d4eea3b53ad4d4ull,0x9aa829324d81a8a8ull,0x6296c4f431529696ull,0xc3f99b3aef62f9f9ull,0x33c566f697a3c5c5ull,0x942535b14a102525ull,0x7959f220b2ab5959ull,0x2a8454ae15d08484ull,0xd572b7a7e4c57272ull,0xe439d5dd72ec3939ull,0x2d4c5a6198164c4cull,0x655eca3bbc945e5eull,0xfd78e785f09f7878ull,0xe038ddd870e53838ull,0x0a8c148605988c8cull,0x63d1c6b2bf17d1d1ull,0xaea5410b57e4a5a5ull,0xafe2434dd9a1e2e2ull,0x99612ff8c24e6161ull,0xf6b3f1457b42b3b3ull,0x842115a542342121ull,0x4a9c94d625089c9cull,0x781ef0663cee1e1eull,0x1143225286614343ull,0x3bc776fc93b1c7c7ull,0xd7fcb32be54ffcfcull,0x1004201408240404ull,0x5951b208a2e35151ull,0x5e99bcc72f259999ull,0xa96d4fc4da226d6dull,0x340d68391a650d0dull,0xcffa8335e979fafaull,0x5bdfb684a369dfdfull,0xe57ed79bfca97e7eull,0x90243db448192424ull,0xec3bc5d776fe3b3bull,0x96ab313d4b9aababull,0x1fce3ed181f0ceceull,0x4411885522991111ull,0x068f0c8903838f8full,0x254e4a6b9c044e4eull,0xe6b7d1517366b7b7ull,0x8beb0b60cbe0ebebull,0xf03cfdcc78c13c3cull,0x3e817cbf1ffd8181ull,0x6a94d4fe35409494ull,0xfbf7eb0cf31cf7f7ull,0xdeb9a1676f18b9b9ull,0x4c13985f268b1313ull,0xb02c7d9c58512c2cull,0x6bd3d6b8bb05d3d3ull,0xbbe76b5cd38ce7e7ull,0xa56e57cbdc396e6eull,0x37c46ef395aac4c4ull,0x0c03180f061b0303ull,0x45568a13acdc5656ull,0x0d441a49885e4444ull,0xe17fdf9efea07f7full,0x9ea921374f88a9a9ull,0xa82a4d8254672a2aull,0xd6bbb16d6b0abbbbull,0x23c146e29f87c1c1ull,0x5153a202a6f15353ull,0x57dcae8ba572dcdcull,0x2c0b582716530b0bull,0x4e9d9cd327019d9dull,0xad6c47c1d82b6c6cull,0xc43195f562a43131ull,0xcd7487b9e8f37474ull,0xfff6e309f115f6f6ull,0x05460a438c4c4646ull,0x8aac092645a5acacull,0x1e893c970fb58989ull,0x5014a04428b41414ull,0xa3e15b42dfbae1e1ull,0x5816b04e2ca61616ull,0xe83acdd274f73a3aull,0xb9696fd0d2066969ull,0x2409482d12410909ull,0xdd70a7ade0d77070ull,0xe2b6d954716fb6b6ull,0x67d0ceb7bd1ed0d0ull,0x93ed3b7ec7d6ededull,0x17cc2edb85e2ccccull,0x15422a5784684242ull,0x5a98b4c22d2c9898ull,0xaaa4490e55eda4a4ull,0xa0285d8850752828ull,0x6d5cda31b8865c5cull,0xc7f8933fed6bf8f8ull,0x228644a411c28686ull};
static const u64 WROW7[256] = {0x186018c07830d818ull,0x238c2305af462623ull,0xc63fc67ef991b8c6ull,0xe887e8136fcdfbe8ull,0x8726874ca113cb87ull,0xb8dab8a9626d11b8ull,0x0104010805020901ull,0x4f214f426e9e0d4full,0x36d836adee6c9b36ull,0xa6a2a6590451ffa6ull,0xd26fd2debdb90cd2ull,0xf5f3f5fb06f70ef5ull,0x79f979ef80f29679ull,0x6fa16f5fcede306full,0x917e91fcef3f6d91ull,0x525552aa07a4f852ull,0x609d6027fdc04760ull,0xbccabc89766535bcull,0x9b569baccd2b379bull,0x8e028e048c018a8eull,0xa3b6a371155bd2a3ull,0x0c300c603c186c0cull,0x7bf17bff8af6847bull,0x35d435b5e16a8035ull,0x1d741de8693af51dull,0xe0a7e05347ddb3e0ull,0xd77bd7f6acb321d7ull,0xc22fc25eed999cc2ull,0x2eb82e6d965c432eull,0x4b314b627a96294bull,0xfedffea321e15dfeull,0x5741578216aed557ull,0x155415a8412abd15ull,0x77c1779fb6eee877ull,0x37dc37a5eb6e9237ull,0xe5b3e57b56d79ee5ull,0x9f469f8cd923139full,0xf0e7f0d317fd23f0ull,0x4a354a6a7f94204aull,0xda4fda9e95a944daull,0x587d58fa25b0a258ull,0xc903c906ca8fcfc9ull,0x29a429558d527c29ull,0x0a280a5022145a0aull,0xb1feb1e14f7f50b1ull,0xa0baa0691a5dc9a0ull,0x6bb16b7fdad6146bull,0x852e855cab17d985ull,0xbdcebd8173673cbdull,0x5d695dd234ba8f5dull,0x1040108050209010ull,0xf4f7f4f303f507f4ull,0xcb0bcb16c08bddcbull,0x3ef83eedc67cd33eull,0x05140528110a2d05ull,0x6781671fe6ce7867ull,0xe4b7e47353d597e4ull,0x279c2725bb4e0227ull,0x4119413258827341ull,0x8b168b2c9d0ba78bull,0xa7a6a7510153f6a7ull,0x7de97dcf94fab27dull,0x956e95dcfb374995ull,0xd847d88e9fad56d8ull,0xfbcbfb8b30eb70fbull,0xee9fee2371c1cdeeull,0x7ced7cc791f8bb7cull,0x66856617e3cc7166ull,0xdd53dda68ea77bddull,0x175c17b84b2eaf17ull,0x47014702468e4547ull,0x9e429e84dc211a9eull,0xca0fca1ec589d4caull,0x2db42d75995a582dull,0xbfc6bf9179632ebfull,0x071c07381b0e3f07ull,0xad8ead012347acadull,0x5a755aea2fb4b05aull,0x8336836cb51bef83ull,0x33cc3385ff66b633ull,0x6391633ff2c65c63ull,0x020802100a041202ull,0xaa92aa39384993aaull,0x71d971afa8e2de71ull,0xc807c80ecf8dc6c8ull,0x196419c87d32d119ull,0x4939497270923b49ull,0xd943d9869aaf5fd9ull,0xf2eff2c31df931f2ull,0xe3abe34b48dba8e3ull,0x5b715be22ab6b95bull,0x881a8834920dbc88ull,0x9a529aa4c8293e9aull,0x2698262dbe4c0b26ull,0x32c8328dfa64bf32ull,0xb0fab0e94a7d59b0ull,0xe983e91b6acff2e9ull,0x0f3c0f78331e770full,0xd573d5e6a6b733d5ull,0x803a8074ba1df480ull,0xbec2be997c6127beull,0xcd13cd26de87ebcdull,0x34d034bde4688934ull,0x483d487a75903248ull,0xffdbffab24e354ffull,0x7af57af78ff48d7aull,0x907a90f4ea3d6490ull,0x5f615fc23ebe9d5full,0x2080201da0403d20ull,0x68bd6867d5d00f68ull,0x1a681ad07234ca1aull,0xae82ae192c41b7aeull,0xb4eab4c95e757db4ull,0x544d549a19a8ce54ull,0x937693ece53b7f93ull,0x2288220daa442f22ull,0x648d6407e9c86364ull,0xf1e3f1db12ff2af1ull,0x73d173bfa2e6cc73ull,0x124812905a248212ull,0x401d403a5d807a40ull,0x0820084028104808ull,0xc32bc356e89b95c3ull,0xec97ec337bc5dfecull,0xdb4bdb9690ab4ddbull,0xa1bea1611f5fc0a1ull,0x8d0e8d1c8307918dull,0x3df43df5c97ac83dull,0x976697ccf1335b97ull,0x0000000000000000ull,0xcf1bcf36d483f9cfull,0x2bac2b4587566e2bull,0x76c57697b3ece176ull,0x82328264b019e682ull,0xd67fd6fea9b128d6ull,0x1b6c1bd87736c31bull,0xb5eeb5c15b7774b5ull,0xaf86af112943beafull,0x6ab56a77dfd41d6aull,0x505d50ba0da0ea50ull,0x450945124c8a5745ull,0xf3ebf3cb18fb38f3ull,0x30c0309df060ad30ull,0xef9bef2b74c3c4efull,0x3ffc3fe5c37eda3full,0x554955921caac755ull,0xa2b2a2791059dba2ull,0xea8fea0365c9e9eaull,0x6589650fecca6a65ull,0xbad2bab9686903baull,0x2fbc2f65935e4a2full,0xc027c04ee79d8ec0ull,0xde5fdebe81a160deull,0x1c701ce06c38fc1cull,0xfdd3fdbb2ee746fdull,0x4d294d52649a1f4dull,0x927292e4e0397692ull,0x75c9758fbceafa75ull,0x061806301e0c3606ull,0x8a128a249809ae8aull,0xb2f2b2f940794bb2ull,0xe6bfe66359d185e6ull,0x0e380e70361c7e0eull,0x1f7c1ff8633ee71full,0x62956237f7c45562ull,0xd477d4eea3b53ad4ull,0xa89aa829324d81a8ull,0x966296c4f4315296ull,0xf9c3f99b3aef62f9ull,0xc533c566f697a3c5ull,0x25942535b14a1025ull,0x597959f220b2ab59ull,0x842a8454ae15d084ull,0x72d572b7a7e4c572ull,0x39e439d5dd72ec39ull,0x4c2d4c5a6198164cull,0x5e655eca3bbc945eull,0x78fd78e785f09f78ull,0x38e038ddd870e538ull,0x8c0a8c148605988cull,0xd163d1c6b2bf17d1ull,0xa5aea5410b57e4a5ull,0xe2afe2434dd9a1e2ull,0x6199612ff8c24e61ull,0xb3f6b3f1457b42b3ull,0x21842115a5423421ull,0x9c4a9c94d625089cull,0x1e781ef0663cee1eull,0x4311432252866143ull,0xc73bc776fc93b1c7ull,0xfcd7fcb32be54ffcull,0x0410042014082404ull,0x515951b208a2e351ull,0x995e99bcc72f2599ull,0x6da96d4fc4da226dull,0x0d340d68391a650dull,0xfacffa8335e979faull,0xdf5bdfb684a369dfull,0x7ee57ed79bfca97eull,0x2490243db4481924ull,0x3bec3bc5d776fe3bull,0xab96ab313d4b9aabull,0xce1fce3ed181f0ceull,0x1144118855229911ull,0x8f068f0c8903838full,0x4e254e4a6b9c044eull,0xb7e6b7d1517366b7ull,0xeb8beb0b60cbe0ebull,0x3cf03cfdcc78c13cull,0x813e817cbf1ffd81ull,0x946a94d4fe354094ull,0xf7fbf7eb0cf31cf7ull,0xb9deb9a1676f18b9ull,0x134c13985f268b13ull,0x2cb02c7d9c58512cull,0xd36bd3d6b8bb05d3ull,0xe7bbe76b5cd38ce7ull,0x6ea56e57cbdc396eull,0xc437c46ef395aac4ull,0x030c03180f061b03ull,0x5645568a13acdc56ull,0x440d441a49885e44ull,0x7fe17fdf9efea07full,0xa99ea921374f88a9ull,0x2aa82a4d8254672aull,0xbbd6bbb16d6b0abbull,0xc123c146e29f87c1ull,0x535153a202a6f153ull,0xdc57dcae8ba572dcull,0x0b2c0b582716530bull,0x9d4e9d9cd327019dull,0x6cad6c47c1d82b6cull,0x31c43195f562a431ull,0x74cd7487b9e8f374ull,0xf6fff6e309f115f6ull,0x4605460a438c4c46ull,0xac8aac092645a5acull,0x891e893c970fb589ull,0x145014a04428b414ull,0xe1a3e15b42dfbae1ull,0x165816b04e2ca616ull,0x3ae83acdd274f73aull,0x69b9696fd0d20669ull,0x092409482d124109ull,0x70dd70a7ade0d770ull,0xb6e2b6d954716fb6ull,0xd067d0ceb7bd1ed0ull,0xed93ed3b7ec7d6edull,0xcc17cc2edb85e2ccull,0x4215422a57846842ull,0x985a98b4c22d2c98ull,0xa4aaa4490e55eda4ull,0x28a0285d88507528ull,0x5c6d5cda31b8865cull,0xf8c7f8933fed6bf8ull,0x86228644a411c286ull};
static const u64 TIG1[256] = {0x02aab17cf7e90c5eull,0xac424b03e243a8ecull,0x72cd5be30dd5fcd3ull,0x6d019b93f6f97f3aull,0xcd9978ffd21f9193ull,0x7573a1c9708029e2ull,0xb164326b922a83c3ull,0x46883eee04915870ull,0xeaace3057103ece6ull,0xc54169b808a3535cull,0x4ce754918ddec47cull,0x0aa2f4dfdc0df40cull,0x10b76f18a74dbefaull,0xc6ccb6235ad1ab6aull,0x13726121572fe2ffull,0x1a488c6f199d921eull,0x4bc9f9f4da0007caull,0x26f5e6f6e85241c7ull,0x859079dbea5947b6ull,0x4f1885c5c99e8c92ull,0xd78e761ea96f864bull,0x8e36428c52b5c17dull,0x69cf6827373063c1ull,0xb607c93d9bb4c56eull,0x7d820e760e76b5eaull,0x645c9cc6f07fdc42ull,0xbf38a078243342e0ull,0x5f6b343c9d2e7d04ull,0xf2c28aeb600b0ec6ull,0x6c0ed85f7254bcacull,0x71592281a4db4fe5ull,0x1967fa69ce0fed9full,0xfd5293f8b96545dbull,0xc879e9d7f2a7600bull,0x860248920193194eull,0xa4f9533b2d9cc0b3ull,0x9053836c15957613ull,0xdb6dcf8afc357bf1ull,0x18beea7a7a370f57ull,0x037117ca50b99066ull,0x6ab30a9774424a35ull,0xf4e92f02e325249bull,0x7739db07061ccae1ull,0xd8f3b49ceca42a05ull,0xbd56be3f51382f73ull,0x45faed5843b0bb28ull,0x1c813d5c11bf1f83ull,0x8af0e4b6d75fa169ull,0x33ee18a487ad9999ull,0x3c26e8eab1c94410ull,0xb510102bc0a822f9ull,0x141eef310ce6123bull,0xfc65b90059ddb154ull,0xe0158640c5e0e607ull,0x884e079826c3a3cfull,0x930d0d9523c535fdull,0x35638d754e9a2b00ull,0x4085fccf40469dd5ull,0xc4b17ad28be23a4cull,0xcab2f0fc6a3e6a2eull,0x2860971a6b943fcdull,0x3dde6ee212e30446ull,0x6222f32ae01765aeull,0x5d550bb5478308feull,0xa9efa98da0eda22aull,0xc351a71686c40da7ull,0x1105586d9c867c84ull,0xdcffee85fda22853ull,0xccfbd0262c5eef76ull,0xbaf294cb8990d201ull,0xe69464f52afad975ull,0x94b013afdf133e14ull,0x06a7d1a32823c958ull,0x6f95fe5130f61119ull,0xd92ab34e462c06c0ull,0xed7bde33887c71d2ull,0x79746d6e6518393eull,0x5ba419385d713329ull,0x7c1ba6b948a97564ull,0x31987c197bfdac67ull,0xde6c23c44b053d02ull,0x581c49fed002d64dull,0xdd474d6338261571ull,0xaa4546c3e473d062ull,0x928fce349455f860ull,0x48161bbacaab94d9ull,0x63912430770e6f68ull,0x6ec8a5e602c6641cull,0x87282515337ddd2bull,0x2cda6b42034b701bull,0xb03d37c181cb096dull,0xe108438266c71c6full,0x2b3180c7eb51b255ull,0xdf92b82f96c08bbcull,0x5c68c8c0a632f3baull,0x5504cc861c3d0556ull,0xabbfa4e55fb26b8full,0x41848b0ab3baceb4ull,0xb334a273aa445d32ull,0xbca696f0a85ad881ull,0x24f6ec65b528d56cull,0x0ce1512e90f4524aull,0x4e9dd79d5506d35aull,0x258905fac6ce9779ull,0x2019295b3e109b33ull,0xf8a9478b73a054ccull,0x2924f2f934417eb0ull,0x3993357d536d1bc4ull,0x38a81ac21db6ff8bull,0x47c4fbf17d6016bfull,0x1e0faadd7667e3f5ull,0x7abcff62938beb96ull,0xa78dad948fc179c9ull,0x8f1f98b72911e50dull,0x61e48eae27121a91ull,0x4d62f7ad31859808ull,0xeceba345ef5ceaebull,0xf5ceb25ebc9684ceull,0xf633e20cb7f76221ull,0xa32cdf06ab8293e4ull,0x985a202ca5ee2ca4ull,0xcf0b8447cc8a8fb1ull,0x9f765244979859a3ull,0xa8d516b1a1240017ull,0x0bd7ba3ebb5dc726ull,0xe54bca55b86adb39ull,0x1d7a3afd6c478063ull,0x519ec608e7669eddull,0x0e5715a2d149aa23ull,0x177d4571848ff194ull,0xeeb55f3241014c22ull,0x0f5e5ca13a6e2ec2ull,0x8029927b75f5c361ull,0xad139fabc3d6e436ull,0x0d5df1a94ccf402full,0x3e8bd948bea5dfc8ull,0xa5a0d357bd3ff77eull,0xa2d12e251f74f645ull,0x66fd9e525e81a082ull,0x2e0c90ce7f687a49ull,0xc2e8bcbeba973bc5ull,0x000001bce509745full,0x423777bbe6dab3d6ull,0xd1661c7eaef06eb5ull,0xa1781f354daacfd8ull,0x2d11284a2b16affcull,0xf1fc4f67fa891d1full,0x73ecc25dcb920adaull,0xae610c22c2a12651ull,0x96e0a810d356b78aull,0x5a9a381f2fe7870full,0xd5ad62ede94e5530ull,0xd225e5e8368d1427ull,0x65977b70c7af4631ull,0x99f889b2de39d74full,0x233f30bf54e1d143ull,0x9a9675d3d9a63c97ull,0x5470554ff334f9a8ull,0x166acb744a4f5688ull,0x70c74caab2e4aeadull,0xf0d091646f294d12ull,0x57b82a89684031d1ull,0xefd95a5a61be0b6bull,0x2fbd12e969f2f29aull,0x9bd37013feff9fe8ull,0x3f9b0404d6085a06ull,0x4940c1f3166cfe15ull,0x09542c4dcdf3defbull,0xb4c5218385cd5ce3ull,0xc935b7dc4462a641ull,0x3417f8a68ed3b63full,0xb80959295b215b40ull,0xf99cdaef3b8c8572ull,0x018c0614f8fcb95dull,0x1b14accd1a3acdf3ull,0x84d471f200bb732dull,0xc1a3110e95e8da16ull,0x430a7220bf1a82b8ull,0xb77e090d39df210eull,0x5ef4bd9f3cd05e9dull,0x9d4ff6da7e57a444ull,0xda1d60e183d4a5f8ull,0xb287c38417998e47ull,0xfe3edc121bb31886ull,0xc7fe3ccc980ccbefull,0xe46fb590189bfd03ull,0x3732fd469a4c57dcull,0x7ef700a07cf1ad65ull,0x59c64468a31d8859ull,0x762fb0b4d45b61f6ull,0x155baed099047718ull,0x68755e4c3d50baa6ull,0xe9214e7f22d8b4dfull,0x2addbf532eac95f4ull,0x32ae3909b4bd0109ull,0x834df537b08e3450ull,0xfa209da84220728dull,0x9e691d9b9efe23f7ull,0x0446d288c4ae8d7full,0x7b4cc524e169785bull,0x21d87f0135ca1385ull,0xcebb400f137b8aa5ull,0x272e2b66580796beull,0x3612264125c2b0deull,0x057702bdad1efbb2ull,0xd4babb8eacf84be9ull,0x91583139641bc67bull,0x8bdc2de08036e024ull,0x603c8156f49f68edull,0xf7d236f7dbef5111ull,0x9727c4598ad21e80ull,0xa08a0896670a5fd7ull,0xcb4a8f4309eba9cbull,0x81af564b0f7036a1ull,0xc0b99aa778199abdull,0x959f1ec83fc8e952ull,0x8c505077794a81b9ull,0x3acaaf8f056338f0ull,0x07b43f50627a6778ull,0x4a44ab49f5eccc77ull,0x3bc3d6e4b679ee98ull,0x9cc0d4d1cf14108cull,0x4406c00b206bc8a0ull,0x82a18854c8d72d89ull,0x67e366b35c3c432cull,0xb923dd61102b37f2ull,0x56ab2779d884271dull,0xbe83e1b0ff1525afull,0xfb7c65d4217e49a9ull,0x6bdbe0e76d48e7d4ull,0x08df828745d9179eull,0x22ea6a9add53bd34ull,0xe36e141c5622200aull,0x7f805d1b8cb750eeull,0xafe5c7a59f58e837ull,0xe27f996a4fb1c23cull,0xd3867dfb0775f0d0ull,0xd0e673de6e88891aull,0x123aeb9eafb86c25ull,0x30f1d5d5c145b895ull,0xbb434a2dee7269e7ull,0x78cb67ecf931fa38ull,0xf33b0372323bbf9cull,0x52d66336fb279c74ull,0x505f33ac0afb4eaaull,0xe8a5cd99a2cce187ull,0x534974801e2d30bbull,0x8d2d5711d5876d90ull,0x1f1a412891bc038eull,0xd6e2e71d82e56648ull,0x74036c3a497732b7ull,0x89b67ed96361f5abull,0xffed95d8f1ea02a2ull,0xe72b3bd61464d43dull,0xa6300f170bdc4820ull,0xebc18760ed78a77aull};
static const u64 TIG2[256] = {0xe6a6be5a05a12138ull,0xb5a122a5b4f87c98ull,0x563c6089140b6990ull,0x4c46cb2e391f5dd5ull,0xd932addbc9b79434ull,0x08ea70e42015aff5ull,0xd765a6673e478cf1ull,0xc4fb757eab278d99ull,0xdf11c6862d6e0692ull,0xddeb84f10d7f3b16ull,0x6f2ef604a665ea04ull,0x4a8e0f0ff0e0dfb3ull,0xa5edeef83dbcba51ull,0xfc4f0a2a0ea4371eull,0xe83e1da85cb38429ull,0xdc8ff882ba1b1ce2ull,0xcd45505e8353e80dull,0x18d19a00d4db0717ull,0x34a0cfeda5f38101ull,0x0be77e518887caf2ull,0x1e341438b3c45136ull,0xe05797f49089ccf9ull,0xffd23f9df2591d14ull,0x543dda228595c5cdull,0x661f81fd99052a33ull,0x8736e641db0f7b76ull,0x15227725418e5307ull,0xe25f7f46162eb2faull,0x48a8b2126c13d9feull,0xafdc541792e76eeaull,0x03d912bfc6d1898full,0x31b1aafa1b83f51bull,0xf1ac2796e42ab7d9ull,0x40a3a7d7fcd2ebacull,0x1056136d0afbbcc5ull,0x7889e1dd9a6d0c85ull,0xd33525782a7974aaull,0xa7e25d09078ac09bull,0xbd4138b3eac6edd0ull,0x920abfbe71eb9e70ull,0xa2a5d0f54fc2625cull,0xc054e36b0b1290a3ull,0xf6dd59ff62fe932bull,0x3537354511a8ac7dull,0xca845e9172fadcd4ull,0x84f82b60329d20dcull,0x79c62ce1cd672f18ull,0x8b09a2add124642cull,0xd0c1e96a19d9e726ull,0x5a786a9b4ba9500cull,0x0e020336634c43f3ull,0xc17b474aeb66d822ull,0x6a731ae3ec9baac2ull,0x8226667ae0840258ull,0x67d4567691caeca5ull,0x1d94155c4875adb5ull,0x6d00fd985b813fdfull,0x51286efcb774cd06ull,0x5e8834471fa744afull,0xf72ca0aee761ae2eull,0xbe40e4cdaee8e09aull,0xe9970bbb5118f665ull,0x726e4beb33df1964ull,0x703b000729199762ull,0x4631d816f5ef30a7ull,0xb880b5b51504a6beull,0x641793c37ed84b6cull,0x7b21ed77f6e97d96ull,0x776306312ef96b73ull,0xae528948e86ff3f4ull,0x53dbd7f286a3f8f8ull,0x16cadce74cfc1063ull,0x005c19bdfa52c6ddull,0x68868f5d64d46ad3ull,0x3a9d512ccf1e186aull,0x367e62c2385660aeull,0xe359e7ea77dcb1d7ull,0x526c0773749abe6eull,0x735ae5f9d09f734bull,0x493fc7cc8a558ba8ull,0xb0b9c1533041ab45ull,0x321958ba470a59bdull,0x852db00b5f46c393ull,0x91209b2bd336b0e5ull,0x6e604f7d659ef19full,0xb99a8ae2782ccb24ull,0xccf52ab6c814c4c7ull,0x4727d9afbe11727bull,0x7e950d0c0121b34dull,0x756f435670ad471full,0xf5add442615a6849ull,0x4e87e09980b9957aull,0x2acfa1df50aee355ull,0xd898263afd2fd556ull,0xc8f4924dd80c8fd6ull,0xcf99ca3d754a173aull,0xfe477bacaf91bf3cull,0xed5371f6d690c12dull,0x831a5c285e687094ull,0xc5d3c90a3708a0a4ull,0x0f7f903717d06580ull,0x19f9bb13b8fdf27full,0xb1bd6f1b4d502843ull,0x1c761ba38fff4012ull,0x0d1530c4e2e21f3bull,0x8943ce69a7372c8aull,0xe5184e11feb5ce66ull,0x618bdb80bd736621ull,0x7d29bad68b574d0bull,0x81bb613e25e6fe5bull,0x071c9c10bc07913full,0xc7beeb7909ac2d97ull,0xc3e58d353bc5d757ull,0xeb017892f38f61e8ull,0xd4effb9c9b1cc21aull,0x99727d26f494f7abull,0xa3e063a2956b3e03ull,0x9d4a8b9a4aa09c30ull,0x3f6ab7d500090fb4ull,0x9cc0f2a057268ac0ull,0x3dee9d2dedbf42d1ull,0x330f49c87960a972ull,0xc6b2720287421b41ull,0x0ac59ec07c00369cull,0xef4eac49cb353425ull,0xf450244eef0129d8ull,0x8acc46e5caf4deb6ull,0x2ffeab63989263f7ull,0x8f7cb9fe5d7a4578ull,0x5bd8f7644e634635ull,0x427a7315bf2dc900ull,0x17d0c4aa2125261cull,0x3992486c93518e50ull,0xb4cbfee0a2d7d4c3ull,0x7c75d6202c5ddd8dull,0xdbc295d8e35b6c61ull,0x60b369d302032b19ull,0xce42685fdce44132ull,0x06f3ddb9ddf65610ull,0x8ea4d21db5e148f0ull,0x20b0fce62fcd496full,0x2c1b912358b0ee31ull,0xb28317b818f5a308ull,0xa89c1e189ca6d2cfull,0x0c6b18576aaadbc8ull,0xb65deaa91299fae3ull,0xfb2b794b7f1027e7ull,0x04e4317f443b5bebull,0x4b852d325939d0a6ull,0xd5ae6beefb207ffcull,0x309682b281c7d374ull,0xbae309a194c3b475ull,0x8cc3f97b13b49f05ull,0x98a9422ff8293967ull,0x244b16b01076ff7cull,0xf8bf571c663d67eeull,0x1f0d6758eee30da1ull,0xc9b611d97adeb9b7ull,0xb7afd5887b6c57a2ull,0x6290ae846b984fe1ull,0x94df4cdeacc1a5fdull,0x058a5bd1c5483affull,0x63166cc142ba3c37ull,0x8db8526eb2f76f40ull,0xe10880036f0d6d4eull,0x9e0523c9971d311dull,0x45ec2824cc7cd691ull,0x575b8359e62382c9ull,0xfa9e400dc4889995ull,0xd1823ecb45721568ull,0xdafd983b8206082full,0xaa7d29082386a8cbull,0x269fcd4403b87588ull,0x1b91f5f728bdd1e0ull,0xe4669f39040201f6ull,0x7a1d7c218cf04adeull,0x65623c29d79ce5ceull,0x2368449096c00bb1ull,0xab9bf1879da503baull,0xbc23ecb1a458058eull,0x9a58df01bb401eccull,0xa070e868a85f143dull,0x4ff188307df2239eull,0x14d565b41a641183ull,0xee13337452701602ull,0x950e3dcf3f285e09ull,0x59930254b9c80953ull,0x3bf299408930da6dull,0xa955943f53691387ull,0xa15edecaa9cb8784ull,0x29142127352be9a0ull,0x76f0371fff4e7afbull,0x0239f450274f2228ull,0xbb073af01d5e868bull,0xbfc80571c10e96c1ull,0xd267088568222e23ull,0x9671a3d48e80b5b0ull,0x55b5d38ae193bb81ull,0x693ae2d0a18b04b8ull,0x5c48b4ecadd5335full,0xfd743b194916a1caull,0x2577018134be98c4ull,0xe77987e83c54a4adull,0x28e11014da33e1b9ull,0x270cc59e226aa213ull,0x71495f756d1a5f60ull,0x9be853fb60afef77ull,0xadc786a7f7443dbfull,0x0904456173b29a82ull,0x58bc7a66c232bd5eull,0xf306558c673ac8b2ull,0x41f639c6b6c9772aull,0x216defe99fda35daull,0x11640cc71c7be615ull,0x93c43694565c5527ull,0xea038e6246777839ull,0xf9abf3ce5a3e2469ull,0x741e768d0fd312d2ull,0x0144b883ced652c6ull,0xc20b5a5ba33f8552ull,0x1ae69633c3435a9dull,0x97a28ca4088cfdecull,0x8824a43c1e96f420ull,0x37612fa66eeea746ull,0x6b4cb165f9cf0e5aull,0x43aa1c06a0abfb4aull,0x7f4dc26ff162796bull,0x6cbacc8e54ed9b0full,0xa6b7ffefd2bb253eull,0x2e25bc95b0a29d4full,0x86d6a58bdef1388cull,0xded74ac576b6f054ull,0x8030bdbc2b45805dull,0x3c81af70e94d9289ull,0x3eff6dda9e3100dbull,0xb38dc39fdfcc8847ull,0x123885528d17b87eull,0xf2da0ed240b1b642ull,0x44cefadcd54bf9a9ull,0x1312200e433c7ee6ull,0x9ffcc84f3a78c748ull,0xf0cd1f72248576bbull,0xec6974053638cfe4ull,0x2ba7b67c0cec4e4cull,0xac2f4df3e5ce32edull,0xcb33d14326ea4c11ull,0xa4e9044cc77e58bcull,0x5f513293d934fcefull,0x5dc9645506e55444ull,0x50de418f317de40aull,0x388cb31a69dde259ull,0x2db4a83455820a86ull,0x9010a91e84711ae9ull,0x4df7f0b7b1498371ull,0xd62a2eabc0977179ull,0x22fac097aa8d5c0eull};
static const u64 TIG3[256] = {0xf49fcc2ff1daf39bull,0x487fd5c66ff29281ull,0xe8a30667fcdca83full,0x2c9b4be3d2fcce63ull,0xda3ff74b93fbbbc2ull,0x2fa165d2fe70ba66ull,0xa103e279970e93d4ull,0xbecdec77b0e45e71ull,0xcfb41e723985e497ull,0xb70aaa025ef75017ull,0xd42309f03840b8e0ull,0x8efc1ad035898579ull,0x96c6920be2b2abc5ull,0x66af4163375a9172ull,0x2174abdcca7127fbull,0xb33ccea64a72ff41ull,0xf04a4933083066a5ull,0x8d970acdd7289af5ull,0x8f96e8e031c8c25eull,0xf3fec02276875d47ull,0xec7bf310056190ddull,0xf5adb0aebb0f1491ull,0x9b50f8850fd58892ull,0x4975488358b74de8ull,0xa3354ff691531c61ull,0x0702bbe481d2c6eeull,0x89fb24057deded98ull,0xac3075138596e902ull,0x1d2d3580172772edull,0xeb738fc28e6bc30dull,0x5854ef8f63044326ull,0x9e5c52325add3bbeull,0x90aa53cf325c4623ull,0xc1d24d51349dd067ull,0x2051cfeea69ea624ull,0x13220f0a862e7e4full,0xce39399404e04864ull,0xd9c42ca47086fcb7ull,0x685ad2238a03e7ccull,0x066484b2ab2ff1dbull,0xfe9d5d70efbf79ecull,0x5b13b9dd9c481854ull,0x15f0d475ed1509adull,0x0bebcd060ec79851ull,0xd58c6791183ab7f8ull,0xd1187c5052f3eee4ull,0xc95d1192e54e82ffull,0x86eea14cb9ac6ca2ull,0x3485beb153677d5dull,0xdd191d781f8c492aull,0xf60866baa784ebf9ull,0x518f643ba2d08c74ull,0x8852e956e1087c22ull,0xa768cb8dc410ae8dull,0x38047726bfec8e1aull,0xa67738b4cd3b45aaull,0xad16691cec0dde19ull,0xc6d4319380462e07ull,0xc5a5876d0ba61938ull,0x16b9fa1fa58fd840ull,0x188ab1173ca74f18ull,0xabda2f98c99c021full,0x3e0580ab134ae816ull,0x5f3b05b773645abbull,0x2501a2be5575f2f6ull,0x1b2f74004e7e8ba9ull,0x1cd7580371e8d953ull,0x7f6ed89562764e30ull,0xb15926ff596f003dull,0x9f65293da8c5d6b9ull,0x6ecef04dd690f84cull,0x4782275fff33af88ull,0xe41433083f820801ull,0xfd0dfe409a1af9b5ull,0x4325a3342cdb396bull,0x8ae77e62b301b252ull,0xc36f9e9f6655615aull,0x85455a2d92d32c09ull,0xf2c7dea949477485ull,0x63cfb4c133a39ebaull,0x83b040cc6ebc5462ull,0x3b9454c8fdb326b0ull,0x56f56a9e87ffd78cull,0x2dc2940d99f42bc6ull,0x98f7df096b096e2dull,0x19a6e01e3ad852bfull,0x42a99ccbdbd4b40bull,0xa59998af45e9c559ull,0x366295e807d93186ull,0x6b48181bfaa1f773ull,0x1fec57e2157a0a1dull,0x4667446af6201ad5ull,0xe615ebcacfb0f075ull,0xb8f31f4f68290778ull,0x22713ed6ce22d11eull,0x3057c1a72ec3c93bull,0xcb46acc37c3f1f2full,0xdbb893fd02aaf50eull,0x331fd92e600b9fcfull,0xa498f96148ea3ad6ull,0xa8d8426e8b6a83eaull,0xa089b274b7735cdcull,0x87f6b3731e524a11ull,0x118808e5cbc96749ull,0x9906e4c7b19bd394ull,0xafed7f7e9b24a20cull,0x6509eadeeb3644a7ull,0x6c1ef1d3e8ef0edeull,0xb9c97d43e9798fb4ull,0xa2f2d784740c28a3ull,0x7b8496476197566full,0x7a5be3e6b65f069dull,0xf96330ed78be6f10ull,0xeee60de77a076a15ull,0x2b4bee4aa08b9bd0ull,0x6a56a63ec7b8894eull,0x02121359ba34fef4ull,0x4cbf99f8283703fcull,0x398071350caf30c8ull,0xd0a77a89f017687aull,0xf1c1a9eb9e423569ull,0x8c7976282dee8199ull,0x5d1737a5dd1f7abdull,0x4f53433c09a9fa80ull,0xfa8b0c53df7ca1d9ull,0x3fd9dcbc886ccb77ull,0xc040917ca91b4720ull,0x7dd00142f9d1dcdfull,0x8476fc1d4f387b58ull,0x23f8e7c5f3316503ull,0x032a2244e7e37339ull,0x5c87a5d750f5a74bull,0x082b4cc43698992eull,0xdf917becb858f63cull,0x3270b8fc5bf86ddaull,0x10ae72bb29b5dd76ull,0x576ac94e7700362bull,0x1ad112dac61efb8full,0x691bc30ec5faa427ull,0xff246311cc327143ull,0x3142368e30e53206ull,0x71380e31e02ca396ull,0x958d5c960aad76f1ull,0xf8d6f430c16da536ull,0xc8ffd13f1be7e1d2ull,0x7578ae66004ddbe1ull,0x05833f01067be646ull,0xbb34b5ad3bfe586dull,0x095f34c9a12b97f0ull,0x247ab64525d60ca8ull,0xdcdbc6f3017477d1ull,0x4a2e14d4decad24dull,0xbdb5e6d9be0a1eebull,0x2a7e70f7794301abull,0xdef42d8a270540fdull,0x01078ec0a34c22c1ull,0xe5de511af4c16387ull,0x7ebb3a52bd9a330aull,0x77697857aa7d6435ull,0x004e831603ae4c32ull,0xe7a21020ad78e312ull,0x9d41a70c6ab420f2ull,0x28e06c18ea1141e6ull,0xd2b28cbd984f6b28ull,0x26b75f6c446e9d83ull,0xba47568c4d418d7full,0xd80badbfe6183d8eull,0x0e206d7f5f166044ull,0xe258a43911cbca3eull,0x723a1746b21dc0bcull,0xc7caa854f5d7cdd3ull,0x7cac32883d261d9cull,0x7690c26423ba942cull,0x17e55524478042b8ull,0xe0be477656a2389full,0x4d289b5e67ab2da0ull,0x44862b9c8fbbfd31ull,0xb47cc8049d141365ull,0x822c1b362b91c793ull,0x4eb14655fb13dfd8ull,0x1ecbba0714e2a97bull,0x6143459d5cde5f14ull,0x53a8fbf1d5f0ac89ull,0x97ea04d81c5e5b00ull,0x622181a8d4fdb3f3ull,0xe9bcd341572a1208ull,0x1411258643cce58aull,0x9144c5fea4c6e0a4ull,0x0d33d06565cf620full,0x54a48d489f219ca1ull,0xc43e5eac6d63c821ull,0xa9728b3a72770dafull,0xd7934e7b20df87efull,0xe35503b61a3e86e5ull,0xcae321fbc819d504ull,0x129a50b3ac60bfa6ull,0xcd5e68ea7e9fb6c3ull,0xb01c90199483b1c7ull,0x3de93cd5c295376cull,0xaed52edf2ab9ad13ull,0x2e60f512c0a07884ull,0xbc3d86a3e36210c9ull,0x35269d9b163951ceull,0x0c7d6e2ad0cdb5faull,0x59e86297d87f5733ull,0x298ef221898db0e7ull,0x55000029d1a5aa7eull,0x8bc08ae1b5061b45ull,0xc2c31c2b6c92703aull,0x94cc596baf25ef42ull,0x0a1d73db22540456ull,0x04b6a0f9d9c4179aull,0xeffdafa2ae3d3c60ull,0xf7c8075bb49496c4ull,0x9cc5c7141d1cd4e3ull,0x78bd1638218e5534ull,0xb2f11568f850246aull,0xedfabcfa9502bc29ull,0x796ce5f2da23051bull,0xaae128b0dc93537cull,0x3a493da0ee4b29aeull,0xb5df6b2c416895d7ull,0xfcabbd25122d7f37ull,0x70810b58105dc4b1ull,0xe10fdd37f7882a90ull,0x524dcab5518a3f5cull,0x3c9e85878451255bull,0x4029828119bd34e2ull,0x74a05b6f5d3ceccbull,0xb610021542e13ecaull,0x0ff979d12f59e2acull,0x6037da27e4f9cc50ull,0x5e92975a0df1847dull,0xd66de190d3e623feull,0x5032d6b87b568048ull,0x9a36b7ce8235216eull,0x80272a7a24f64b4aull,0x93efed8b8c6916f7ull,0x37ddbff44cce1555ull,0x4b95db5d4b99bd25ull,0x92d3fda169812fc0ull,0xfb1a4a9a90660bb6ull,0x730c196946a4b9b2ull,0x81e289aa7f49da68ull,0x64669a0f83b1a05full,0x27b3ff7d9644f48bull,0xcc6b615c8db675b3ull,0x674f20b9bcebbe95ull,0x6f31238275655982ull,0x5ae488713e45cf05ull,0xbf619f9954c21157ull,0xeabac46040a8eae9ull,0x454c6fe9f2c0c1cdull,0x419cf6496412691cull,0xd3dc3bef265b0f70ull,0x6d0e60f5c3578a9eull};
static const u64 TIG4[256] = {0x5b0e608526323c55ull,0x1a46c1a9fa1b59f5ull,0xa9e245a17c4c8ffaull,0x65ca5159db2955d7ull,0x05db0a76ce35afc2ull,0x81eac77ea9113d45ull,0x528ef88ab6ac0a0dull,0xa09ea253597be3ffull,0x430ddfb3ac48cd56ull,0xc4b3a67af45ce46full,0x4ececfd8fbe2d05eull,0x3ef56f10b39935f0ull,0x0b22d6829cd619c6ull,0x17fd460a74df2069ull,0x6cf8cc8e8510ed40ull,0xd6c824bf3a6ecaa7ull,0x61243d581a817049ull,0x048bacb6bbc163a2ull,0xd9a38ac27d44cc32ull,0x7fddff5baaf410abull,0xad6d495aa804824bull,0xe1a6a74f2d8c9f94ull,0xd4f7851235dee8e3ull,0xfd4b7f886540d893ull,0x247c20042aa4bfdaull,0x096ea1c517d1327cull,0xd56966b4361a6685ull,0x277da5c31221057dull,0x94d59893a43acff7ull,0x64f0c51ccdc02281ull,0x3d33bcc4ff6189dbull,0xe005cb184ce66af1ull,0xff5ccd1d1db99beaull,0xb0b854a7fe42980full,0x7bd46a6a718d4b9full,0xd10fa8cc22a5fd8cull,0xd31484952be4bd31ull,0xc7fa975fcb243847ull,0x4886ed1e5846c407ull,0x28cddb791eb70b04ull,0xc2b00be2f573417full,0x5c9590452180f877ull,0x7a6bddfff370eb00ull,0xce509e38d6d9d6a4ull,0xebeb0f00647fa702ull,0x1dcc06cf76606f06ull,0xe4d9f28ba286ff0aull,0xd85a305dc918c262ull,0x475b1d8732225f54ull,0x2d4fb51668ccb5feull,0xa679b9d9d72bba20ull,0x53841c0d912d43a5ull,0x3b7eaa48bf12a4e8ull,0x781e0e47f22f1ddfull,0xeff20ce60ab50973ull,0x20d261d19dffb742ull,0x16a12b03062a2e39ull,0x1960eb2239650495ull,0x251c16fed50eb8b8ull,0x9ac0c330f826016eull,0xed152665953e7671ull,0x02d63194a6369570ull,0x5074f08394b1c987ull,0x70ba598c90b25ce1ull,0x794a15810b9742f6ull,0x0d5925e9fcaf8c6cull,0x3067716cd868744eull,0x910ab077e8d7731bull,0x6a61bbdb5ac42f61ull,0x93513efbf0851567ull,0xf494724b9e83e9d5ull,0xe887e1985c09648dull,0x34b1d3c675370cfdull,0xdc35e433bc0d255dull,0xd0aab84234131be0ull,0x08042a50b48b7eafull,0x9997c4ee44a3ab35ull,0x829a7b49201799d0ull,0x263b8307b7c54441ull,0x752f95f4fd6a6ca6ull,0x927217402c08c6e5ull,0x2a8ab754a795d9eeull,0xa442f7552f72943dull,0x2c31334e19781208ull,0x4fa98d7ceaee6291ull,0x55c3862f665db309ull,0xbd0610175d53b1f3ull,0x46fe6cb840413f27ull,0x3fe03792df0cfa59ull,0xcfe700372eb85e8full,0xa7be29e7adbce118ull,0xe544ee5cde8431ddull,0x8a781b1b41f1873eull,0xa5c94c78a0d2f0e7ull,0x39412e2877b60728ull,0xa1265ef3afc9a62cull,0xbcc2770c6a2506c5ull,0x3ab66dd5dce1ce12ull,0xe65499d04a675b37ull,0x7d8f523481bfd216ull,0x0f6f64fcec15f389ull,0x74efbe618b5b13c8ull,0xacdc82b714273e1dull,0xdd40bfe003199d17ull,0x37e99257e7e061f8ull,0xfa52626904775aaaull,0x8bbbf63a463d56f9ull,0xf0013f1543a26e64ull,0xa8307e9f879ec898ull,0xcc4c27a4150177ccull,0x1b432f2cca1d3348ull,0xde1d1f8f9f6fa013ull,0x606602a047a7ddd6ull,0xd237ab64cc1cb2c7ull,0x9b938e7225fcd1d3ull,0xec4e03708e0ff476ull,0xfeb2fbda3d03c12dull,0xae0bced2ee43889aull,0x22cb8923ebfb4f43ull,0x69360d013cf7396dull,0x855e3602d2d4e022ull,0x073805bad01f784cull,0x33e17a133852f546ull,0xdf4874058ac7b638ull,0xba92b29c678aa14aull,0x0ce89fc76cfaadcdull,0x5f9d4e0908339e34ull,0xf1afe9291f5923b9ull,0x6e3480f60f4a265full,0xeebf3a2ab29b841cull,0xe21938a88f91b4adull,0x57dfeff845c6d3c3ull,0x2f006b0bf62caaf2ull,0x62f479ef6f75ee78ull,0x11a55ad41c8916a9ull,0xf229d29084fed453ull,0x42f1c27b16b000e6ull,0x2b1f76749823c074ull,0x4b76eca3c2745360ull,0x8c98f463b91691bdull,0x14bcc93cf1ade66aull,0x8885213e6d458397ull,0x8e177df0274d4711ull,0xb49b73b5503f2951ull,0x10168168c3f96b6bull,0x0e3d963b63cab0aeull,0x8dfc4b5655a1db14ull,0xf789f1356e14de5cull,0x683e68af4e51dac1ull,0xc9a84f9d8d4b0fd9ull,0x3691e03f52a0f9d1ull,0x5ed86e46e1878e80ull,0x3c711a0e99d07150ull,0x5a0865b20c4e9310ull,0x56fbfc1fe4f0682eull,0xea8d5de3105edf9bull,0x71abfdb12379187aull,0x2eb99de1bee77b9cull,0x21ecc0ea33cf4523ull,0x59a4d7521805c7a1ull,0x3896f5eb56ae7c72ull,0xaa638f3db18f75dcull,0x9f39358dabe9808eull,0xb7defa91c00b72acull,0x6b5541fd62492d92ull,0x6dc6dee8f92e4d5bull,0x353f57abc4beea7eull,0x735769d6da5690ceull,0x0a234aa642391484ull,0xf6f9508028f80d9dull,0xb8e319a27ab3f215ull,0x31ad9c1151341a4dull,0x773c22a57bef5805ull,0x45c7561a07968633ull,0xf913da9e249dbe36ull,0xda652d9b78a64c68ull,0x4c27a97f3bc334efull,0x76621220e66b17f4ull,0x967743899acd7d0bull,0xf3ee5bcae0ed6782ull,0x409f753600c879fcull,0x06d09a39b5926db6ull,0x6f83aeb0317ac588ull,0x01e6ca4a86381f21ull,0x66ff3462d19f3025ull,0x72207c24ddfd3bfbull,0x4af6b6d3e2ece2ebull,0x9c994dbec7ea08deull,0x49ace597b09a8bc4ull,0xb38c4766cf0797baull,0x131b9373c57c2a75ull,0xb1822cce61931e58ull,0x9d7555b909ba1c0cull,0x127fafdd937d11d2ull,0x29da3badc66d92e4ull,0xa2c1d57154c2ecbcull,0x58c5134d82f6fe24ull,0x1c3ae3515b62274full,0xe907c82e01cb8126ull,0xf8ed091913e37fcbull,0x3249d8f9c80046c9ull,0x80cf9bede388fb63ull,0x1881539a116cf19eull,0x5103f3f76bd52457ull,0x15b7e6f5ae47f7a8ull,0xdbd7c6ded47e9ccfull,0x44e55c410228bb1aull,0xb647d4255edb4e99ull,0x5d11882bb8aafc30ull,0xf5098bbb29d3212aull,0x8fb5ea14e90296b3ull,0x677b942157dd025aull,0xfb58e7c0a390acb5ull,0x89d3674c83bd4a01ull,0x9e2da4df4bf3b93bull,0xfcc41e328cab4829ull,0x03f38c96ba582c52ull,0xcad1bdbd7fd85db2ull,0xbbb442c16082ae83ull,0xb95fe86ba5da9ab0ull,0xb22e04673771a93full,0x845358c9493152d8ull,0xbe2a488697b4541eull,0x95a2dc2dd38e6966ull,0xc02c11ac923c852bull,0x2388b1990df2a87bull,0x7c8008fa1b4f37beull,0x1f70d0c84d54e503ull,0x5490adec7ece57d4ull,0x002b3c27d9063a3aull,0x7eaea3848030a2bfull,0xc602326ded2003c0ull,0x83a7287d69a94086ull,0xc57a5fcb30f57a8aull,0xb56844e479ebe779ull,0xa373b40f05dcbce9ull,0xd71a786e88570ee2ull,0x879cbacdbde8f6a0ull,0x976ad1bcc164a32full,0xab21e25e9666d78bull,0x901063aae5e5c33cull,0x9818b34448698d90ull,0xe36487ae3e1e8abbull,0xafbdf931893bdcb4ull,0x6345a0dc5fbbd519ull,0x8628fe269b9465caull,0x1e5d01603f9c51ecull,0x4de44006a15049b7ull,0xbf6c70e5f776cbb1ull,0x411218f2ef552bedull,0xcb0c0708705a36a3ull,0xe74d14754f986044ull,0xcd56d9430ea8280eull,0xc12591d7535f5065ull,0xc83223f1720aef96ull,0xc3a0396f7363a51full};
