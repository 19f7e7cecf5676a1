------------------------------- MODULE HashesSelf -------------------------------
(* Byte conversions agree with arithmetic; the hash functions have their        *)
(* published values.                                                            *)
EXTENDS Hashes, TLC
VARIABLES a, n
Init == a \in {0, 1, 5, 255, 256, 4095, 4096, 65535, 65536, 1048577, 123456789, 2147483647} /\ n \in 4..9
Next == UNCHANGED << a, n >>
Dig(x, k) == (x \div (256 ^ k)) % 256
Bytes == /\ \A k \in 0..2 : LE(BFromInt(a), n)[k + 1] = Dig(a, k)
         /\ FromLE(LE(BFromInt(a), n)) = BFromInt(a)
         /\ FromLE(LE(BMul(BFromInt(a), BFromInt(a)), 8)) = BMul(BFromInt(a), BFromInt(a))
         /\ Rev(BE(BFromInt(a), n)) = LE(BFromInt(a), n)
Vectors == a = 0 /\ n = 4 =>
  /\ Sha256(<< >>) = << 227, 176, 196, 66, 152, 252, 28, 20, 154, 251, 244, 200, 153, 111, 185, 36, 39, 174, 65, 228, 100, 155, 147, 76, 164, 149, 153, 27, 120, 82, 184, 85 >>
  /\ Sha256(<< 97, 98, 99 >>) = << 186, 120, 22, 191, 143, 1, 207, 234, 65, 65, 64, 222, 93, 174, 34, 35, 176, 3, 97, 163, 150, 23, 122, 156, 180, 16, 255, 97, 242, 0, 21, 173 >>
  /\ Sha256([i \in 1..128 |-> i - 1]) = << 71, 31, 185, 67, 170, 35, 197, 17, 246, 247, 47, 141, 22, 82, 217, 200, 128, 207, 163, 146, 173, 128, 80, 49, 32, 84, 119, 3, 229, 106, 43, 229 >>
  /\ Sha256([i \in 1..129 |-> 7]) = << 148, 82, 67, 159, 218, 75, 40, 107, 150, 99, 233, 126, 77, 156, 249, 121, 242, 120, 53, 130, 75, 153, 172, 159, 173, 9, 165, 72, 175, 112, 1, 105 >>
  /\ Sha256([i \in 1..300 |-> (i - 1) % 251]) = << 67, 249, 181, 213, 158, 177, 8, 129, 113, 118, 198, 246, 92, 44, 98, 3, 162, 47, 42, 232, 188, 40, 183, 161, 221, 228, 89, 71, 103, 140, 80, 66 >>
  /\ Blake2b(<< >>, << 72, 97, 108, 111, 50, 45, 84, 114, 97, 110, 115, 99, 114, 105, 112, 116 >>) = << 160, 11, 125, 39, 70, 15, 218, 8, 242, 132, 56, 99, 251, 129, 248, 144, 117, 185, 149, 132, 69, 58, 107, 216, 168, 193, 232, 70, 132, 172, 84, 34, 57, 23, 56, 208, 134, 220, 116, 50, 241, 221, 238, 173, 94, 77, 79, 184, 61, 155, 184, 50, 56, 150, 16, 113, 23, 94, 223, 134, 102, 117, 221, 178 >>
  /\ Blake2b(<< 97, 98, 99 >>, << 72, 97, 108, 111, 50, 45, 84, 114, 97, 110, 115, 99, 114, 105, 112, 116 >>) = << 26, 70, 28, 171, 99, 216, 179, 219, 201, 218, 171, 21, 116, 114, 159, 85, 213, 78, 132, 75, 23, 182, 154, 177, 252, 230, 218, 232, 202, 236, 185, 210, 75, 181, 80, 205, 146, 112, 170, 83, 200, 233, 39, 125, 104, 0, 139, 48, 128, 218, 11, 102, 252, 104, 83, 35, 30, 21, 171, 236, 11, 1, 89, 229 >>
  /\ Blake2b([i \in 1..128 |-> i - 1], << 72, 97, 108, 111, 50, 45, 84, 114, 97, 110, 115, 99, 114, 105, 112, 116 >>) = << 29, 229, 208, 92, 207, 172, 163, 37, 198, 33, 22, 16, 163, 243, 60, 169, 243, 165, 211, 90, 126, 174, 184, 7, 173, 158, 57, 63, 49, 116, 145, 7, 69, 129, 241, 216, 55, 249, 203, 238, 123, 145, 131, 3, 130, 96, 149, 134, 184, 156, 62, 166, 168, 127, 77, 39, 242, 52, 79, 176, 217, 8, 26, 32 >>
  /\ Blake2b([i \in 1..129 |-> 7], << 72, 97, 108, 111, 50, 45, 84, 114, 97, 110, 115, 99, 114, 105, 112, 116 >>) = << 241, 9, 255, 71, 173, 3, 13, 115, 25, 206, 210, 234, 0, 171, 193, 200, 79, 76, 35, 28, 24, 50, 176, 24, 53, 31, 243, 229, 100, 229, 198, 22, 0, 182, 130, 100, 127, 234, 129, 140, 110, 54, 105, 235, 20, 86, 115, 206, 244, 81, 54, 169, 114, 2, 83, 23, 237, 255, 100, 197, 88, 76, 235, 63 >>
  /\ Blake2b([i \in 1..300 |-> (i - 1) % 251], << 72, 97, 108, 111, 50, 45, 84, 114, 97, 110, 115, 99, 114, 105, 112, 116 >>) = << 164, 138, 84, 243, 221, 73, 141, 20, 142, 101, 35, 229, 206, 207, 239, 104, 25, 142, 239, 9, 52, 141, 253, 27, 148, 63, 20, 223, 55, 124, 138, 153, 66, 118, 202, 151, 61, 4, 154, 47, 28, 113, 123, 12, 29, 1, 141, 107, 208, 204, 83, 177, 232, 70, 75, 231, 113, 148, 78, 203, 104, 180, 76, 80 >>
  /\ Blake2b(<< 97, 98, 99 >>, Zeros(16)) = << 186, 128, 165, 63, 152, 28, 77, 13, 106, 39, 151, 182, 159, 18, 246, 233, 76, 33, 47, 20, 104, 90, 196, 183, 75, 18, 187, 111, 219, 255, 162, 209, 125, 135, 197, 57, 42, 171, 121, 45, 194, 82, 213, 222, 69, 51, 204, 149, 24, 211, 138, 168, 219, 241, 146, 90, 185, 35, 134, 237, 212, 0, 153, 35 >>
================================================================================
