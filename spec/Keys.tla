-------------------------------- MODULE Keys --------------------------------
\* Generated by the harness (runner genkeys); the names of all accounts.
EXTENDS Naturals

KeyBytes == [
  A |-> << 112, 143, 251, 112, 123, 45, 159, 141, 209, 211, 175, 117, 137, 32, 180, 168, 159, 178, 130, 92, 191, 249, 16, 222, 51, 121, 20, 111, 203, 105, 234, 60 >>,
  ATA |-> << 140, 151, 37, 143, 78, 36, 137, 241, 187, 61, 16, 41, 20, 142, 13, 131, 11, 90, 19, 153, 218, 255, 16, 132, 4, 142, 123, 216, 219, 233, 248, 89 >>,
  B |-> << 83, 250, 244, 57, 181, 132, 245, 81, 86, 173, 86, 164, 77, 69, 146, 182, 186, 23, 66, 206, 166, 56, 144, 106, 223, 8, 194, 148, 236, 61, 87, 111 >>,
  BRIDGE |-> << 161, 81, 103, 36, 129, 220, 180, 205, 56, 62, 206, 220, 83, 193, 145, 194, 240, 252, 232, 179, 210, 255, 34, 9, 136, 226, 84, 114, 102, 152, 227, 110 >>,
  D1 |-> << 76, 108, 34, 97, 24, 61, 138, 113, 38, 252, 8, 242, 185, 149, 40, 0, 213, 19, 56, 204, 154, 229, 127, 130, 170, 137, 14, 147, 43, 251, 166, 231 >>,
  D2 |-> << 227, 140, 50, 11, 71, 209, 217, 198, 197, 243, 207, 20, 200, 55, 223, 103, 90, 226, 26, 242, 205, 233, 203, 208, 101, 191, 33, 77, 222, 43, 113, 83 >>,
  D3 |-> << 84, 157, 31, 58, 16, 159, 197, 152, 175, 226, 159, 76, 159, 79, 153, 74, 226, 151, 131, 87, 119, 25, 95, 28, 95, 247, 190, 188, 58, 162, 7, 177 >>,
  D4 |-> << 145, 135, 182, 139, 220, 209, 210, 193, 59, 149, 231, 230, 44, 130, 216, 140, 102, 131, 3, 130, 253, 135, 106, 218, 108, 45, 156, 171, 65, 75, 43, 132 >>,
  F1 |-> << 104, 204, 195, 23, 79, 120, 67, 221, 202, 215, 195, 176, 198, 227, 101, 155, 128, 152, 52, 242, 88, 53, 59, 140, 61, 8, 73, 159, 12, 135, 201, 112 >>,
  F2 |-> << 214, 244, 133, 164, 130, 61, 148, 157, 94, 28, 48, 36, 229, 110, 165, 64, 98, 10, 63, 68, 23, 250, 218, 56, 62, 187, 11, 197, 0, 118, 87, 118 >>,
  G |-> << 204, 50, 92, 222, 149, 91, 87, 97, 96, 31, 5, 127, 117, 4, 87, 38, 219, 152, 19, 57, 65, 80, 191, 73, 216, 199, 185, 8, 142, 49, 85, 188 >>,
  H |-> << 157, 224, 249, 239, 63, 189, 11, 36, 121, 138, 97, 219, 237, 94, 128, 91, 1, 12, 151, 14, 24, 171, 194, 174, 121, 21, 182, 252, 100, 157, 20, 169 >>,
  LOADER |-> << 157, 73, 163, 196, 33, 30, 248, 97, 101, 153, 48, 213, 91, 119, 14, 96, 86, 213, 98, 25, 126, 229, 235, 144, 53, 166, 179, 88, 120, 255, 80, 148 >>,
  M1 |-> << 190, 230, 152, 132, 76, 11, 106, 192, 201, 187, 45, 120, 241, 84, 101, 109, 192, 0, 249, 191, 40, 201, 62, 65, 104, 216, 148, 76, 208, 179, 156, 213 >>,
  M2 |-> << 75, 243, 57, 104, 156, 41, 21, 214, 133, 128, 176, 23, 46, 216, 120, 232, 236, 30, 110, 255, 32, 184, 30, 165, 35, 162, 92, 105, 235, 238, 159, 179 >>,
  M3 |-> << 157, 232, 205, 198, 58, 180, 32, 246, 240, 134, 91, 62, 97, 138, 154, 109, 44, 56, 93, 136, 220, 124, 240, 214, 41, 250, 202, 171, 204, 246, 67, 106 >>,
  NIFTY |-> << 146, 193, 127, 27, 175, 145, 91, 234, 20, 228, 132, 1, 184, 245, 88, 138, 168, 67, 193, 145, 117, 171, 10, 206, 239, 164, 190, 122, 209, 69, 6, 174 >>,
  PROXY |-> << 5, 219, 25, 12, 216, 184, 116, 193, 190, 52, 18, 36, 156, 158, 5, 202, 149, 242, 50, 222, 43, 192, 210, 104, 246, 16, 31, 128, 0, 0, 0, 0 >>,
  PX |-> << 16, 253, 205, 242, 59, 193, 121, 88, 151, 181, 127, 239, 15, 215, 255, 149, 141, 163, 176, 106, 11, 133, 223, 140, 95, 38, 220, 23, 219, 53, 185, 142 >>,
  PY |-> << 226, 119, 207, 185, 137, 163, 251, 198, 188, 210, 48, 80, 184, 52, 90, 21, 76, 35, 88, 219, 130, 133, 72, 210, 115, 96, 165, 94, 186, 105, 40, 174 >>,
  SIV |-> << 6, 167, 213, 23, 24, 123, 209, 102, 53, 218, 212, 4, 85, 253, 194, 192, 193, 36, 198, 143, 33, 86, 117, 165, 219, 186, 203, 95, 8, 0, 0, 0 >>,
  SYS |-> << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>,
  TM |-> << 11, 112, 101, 177, 227, 209, 124, 69, 56, 157, 82, 127, 107, 4, 195, 205, 88, 184, 108, 115, 26, 160, 253, 181, 73, 182, 209, 188, 3, 248, 41, 70 >>,
  TOKEN |-> << 6, 221, 246, 225, 215, 101, 161, 147, 217, 203, 225, 70, 206, 235, 121, 172, 28, 180, 133, 237, 95, 91, 55, 145, 58, 140, 245, 133, 126, 255, 0, 169 >>,
  TOKEN22 |-> << 6, 221, 246, 225, 238, 117, 143, 222, 24, 66, 93, 188, 228, 108, 205, 218, 182, 26, 252, 77, 131, 185, 13, 39, 254, 189, 249, 40, 216, 161, 139, 252 >>,
  V1 |-> << 34, 147, 244, 96, 95, 112, 245, 75, 236, 29, 122, 136, 230, 245, 148, 86, 14, 26, 59, 233, 72, 203, 94, 58, 133, 141, 50, 128, 86, 243, 156, 49 >>,
  V2 |-> << 69, 79, 222, 32, 112, 229, 147, 170, 157, 137, 160, 15, 2, 247, 137, 27, 187, 57, 67, 167, 224, 187, 128, 40, 188, 38, 7, 158, 42, 191, 52, 72 >>,
  V3 |-> << 23, 18, 137, 86, 48, 90, 224, 191, 122, 174, 53, 150, 75, 248, 118, 22, 225, 11, 108, 212, 240, 119, 14, 114, 244, 219, 55, 86, 143, 10, 79, 208 >>,
  W1 |-> << 72, 134, 231, 26, 183, 133, 199, 23, 175, 141, 92, 239, 198, 200, 36, 219, 14, 64, 145, 211, 155, 243, 113, 238, 165, 33, 199, 48, 248, 247, 74, 188 >>,
  W2 |-> << 175, 49, 170, 88, 27, 246, 14, 124, 67, 64, 208, 35, 104, 64, 27, 21, 162, 48, 152, 159, 180, 72, 201, 190, 208, 54, 65, 78, 64, 4, 106, 100 >>,
  W3 |-> << 128, 5, 19, 67, 113, 93, 232, 46, 11, 228, 8, 58, 59, 24, 229, 57, 227, 2, 46, 167, 10, 86, 105, 242, 36, 91, 62, 24, 192, 0, 39, 43 >>,
  Y |-> << 242, 155, 70, 182, 237, 172, 40, 54, 12, 171, 99, 220, 70, 192, 238, 105, 137, 163, 153, 251, 114, 238, 22, 252, 187, 49, 29, 14, 211, 54, 78, 250 >>,
  Z |-> << 155, 7, 18, 119, 246, 236, 130, 53, 104, 209, 175, 105, 245, 213, 42, 252, 204, 201, 182, 232, 120, 77, 74, 184, 109, 2, 188, 170, 108, 7, 252, 103 >>,
  k1 |-> << 45, 130, 222, 102, 19, 42, 63, 191, 234, 82, 61, 230, 200, 55, 42, 83, 66, 252, 55, 4, 53, 11, 221, 61, 226, 113, 22, 86, 240, 81, 192, 142 >>,
  k2 |-> << 175, 138, 53, 89, 30, 77, 72, 199, 78, 252, 220, 199, 162, 161, 225, 43, 107, 110, 47, 21, 171, 184, 65, 120, 218, 158, 174, 94, 20, 166, 37, 80 >>,
  r11 |-> << 197, 169, 243, 23, 146, 69, 121, 36, 146, 86, 95, 31, 43, 164, 155, 208, 181, 241, 218, 246, 155, 187, 140, 219, 77, 179, 165, 31, 101, 46, 87, 109 >>,
  r12 |-> << 88, 115, 21, 128, 95, 63, 136, 91, 39, 223, 43, 164, 125, 207, 64, 214, 199, 34, 90, 149, 229, 167, 80, 242, 124, 199, 186, 26, 162, 68, 130, 191 >>,
  r13 |-> << 84, 184, 206, 204, 195, 244, 182, 203, 66, 220, 189, 134, 152, 156, 200, 229, 38, 34, 103, 166, 118, 240, 115, 163, 203, 236, 191, 233, 251, 120, 77, 11 >>,
  r1v |-> << 222, 54, 251, 17, 238, 5, 242, 99, 220, 89, 13, 234, 217, 2, 225, 189, 121, 49, 148, 253, 16, 179, 122, 3, 213, 15, 56, 155, 155, 18, 34, 69 >>,
  r1w |-> << 55, 23, 209, 189, 112, 40, 96, 180, 81, 90, 45, 83, 106, 70, 121, 112, 237, 111, 97, 223, 126, 50, 110, 1, 222, 220, 56, 191, 208, 255, 210, 225 >>,
  r21 |-> << 69, 132, 65, 41, 141, 141, 37, 146, 179, 180, 130, 130, 122, 17, 145, 196, 195, 78, 15, 236, 153, 96, 55, 2, 51, 239, 90, 156, 38, 175, 107, 80 >>,
  r22 |-> << 184, 37, 150, 178, 118, 199, 60, 254, 96, 21, 106, 104, 136, 83, 141, 58, 200, 73, 132, 177, 153, 89, 212, 67, 84, 113, 242, 25, 171, 35, 73, 140 >>,
  r2v |-> << 103, 159, 113, 23, 48, 245, 24, 118, 145, 48, 255, 232, 193, 59, 168, 32, 10, 0, 57, 32, 99, 204, 169, 160, 37, 23, 116, 222, 72, 8, 6, 130 >>,
  r31 |-> << 101, 190, 124, 32, 38, 171, 193, 18, 167, 74, 19, 132, 84, 27, 19, 167, 141, 116, 109, 123, 65, 12, 10, 98, 194, 239, 50, 235, 114, 90, 232, 216 >>,
  t11 |-> << 113, 235, 94, 236, 252, 145, 239, 140, 232, 72, 89, 123, 130, 146, 200, 196, 218, 0, 16, 220, 245, 227, 178, 196, 199, 175, 209, 50, 116, 120, 235, 157 >>,
  t12 |-> << 17, 49, 52, 183, 101, 226, 195, 202, 18, 21, 126, 128, 174, 241, 124, 244, 179, 108, 204, 66, 74, 228, 35, 163, 9, 245, 195, 155, 243, 152, 132, 103 >>,
  t13 |-> << 169, 50, 214, 123, 147, 103, 129, 72, 195, 231, 24, 213, 21, 10, 117, 42, 102, 244, 82, 199, 62, 119, 230, 49, 139, 130, 227, 236, 39, 1, 199, 120 >>,
  t1v |-> << 223, 56, 11, 109, 129, 139, 202, 170, 38, 204, 56, 56, 3, 137, 182, 142, 207, 39, 181, 212, 254, 51, 40, 20, 138, 7, 15, 199, 199, 120, 57, 167 >>,
  t1w |-> << 36, 5, 110, 75, 183, 159, 226, 212, 248, 33, 130, 24, 132, 118, 91, 21, 235, 62, 104, 22, 206, 220, 113, 40, 152, 237, 160, 15, 38, 104, 11, 202 >>,
  t21 |-> << 141, 208, 223, 209, 242, 177, 219, 146, 237, 75, 123, 254, 227, 10, 123, 223, 89, 212, 40, 114, 34, 92, 113, 83, 28, 110, 188, 226, 202, 24, 200, 40 >>,
  t22 |-> << 227, 59, 81, 171, 9, 0, 186, 9, 189, 229, 180, 14, 61, 199, 155, 61, 122, 184, 150, 53, 150, 55, 150, 194, 242, 230, 191, 162, 128, 30, 149, 129 >>,
  t2v |-> << 195, 179, 242, 71, 135, 153, 230, 218, 155, 49, 56, 163, 126, 207, 31, 218, 95, 21, 60, 111, 173, 96, 231, 181, 4, 221, 50, 207, 232, 109, 4, 176 >>,
  t31 |-> << 113, 51, 245, 49, 247, 74, 105, 135, 81, 49, 59, 218, 222, 24, 229, 77, 117, 163, 49, 214, 173, 157, 137, 104, 37, 49, 189, 164, 121, 250, 211, 142 >>,
  u1 |-> << 135, 120, 69, 0, 181, 210, 159, 135, 181, 97, 189, 6, 65, 107, 65, 97, 148, 78, 118, 149, 202, 52, 168, 128, 53, 82, 170, 48, 121, 248, 219, 249 >>,
  u2 |-> << 229, 82, 191, 21, 105, 253, 93, 223, 227, 21, 44, 26, 200, 103, 196, 206, 131, 111, 143, 255, 167, 47, 200, 133, 23, 204, 6, 3, 33, 251, 186, 35 >>,
  u3 |-> << 14, 4, 37, 160, 100, 32, 17, 16, 16, 239, 11, 114, 20, 181, 15, 233, 40, 187, 114, 18, 54, 195, 166, 111, 215, 50, 209, 39, 146, 150, 35, 228 >>,
  u4 |-> << 7, 78, 206, 233, 58, 40, 187, 10, 188, 49, 95, 120, 103, 108, 240, 182, 161, 240, 7, 13, 176, 65, 71, 188, 69, 84, 40, 213, 128, 36, 234, 245 >>,
  u5 |-> << 82, 34, 164, 117, 249, 87, 80, 4, 250, 228, 145, 114, 68, 226, 41, 158, 92, 12, 24, 110, 57, 115, 24, 143, 176, 58, 8, 147, 103, 248, 185, 171 >>,
  u6 |-> << 96, 229, 247, 172, 132, 169, 150, 186, 116, 79, 248, 151, 2, 240, 20, 155, 172, 82, 43, 48, 81, 219, 151, 67, 54, 28, 57, 85, 243, 138, 184, 30 >>,
  x1 |-> << 227, 250, 30, 237, 211, 209, 44, 189, 79, 6, 184, 27, 84, 175, 97, 219, 133, 125, 70, 197, 218, 134, 249, 80, 21, 236, 198, 31, 188, 1, 97, 180 >>,
  x2 |-> << 15, 193, 152, 157, 81, 251, 163, 1, 183, 133, 168, 227, 67, 80, 18, 6, 241, 40, 160, 107, 139, 17, 247, 118, 46, 40, 17, 116, 106, 108, 42, 225 >>,
  y1 |-> << 232, 64, 81, 195, 133, 247, 121, 4, 14, 36, 8, 23, 254, 79, 98, 6, 254, 56, 98, 192, 36, 203, 152, 168, 170, 105, 49, 114, 54, 150, 211, 174 >>]

Users == {"u1", "u2", "u3", "u4", "u5", "u6", "k1", "k2", "x1", "x2", "y1", "F1", "F2"}
Wallets == {"u1", "u2", "u3", "u4", "u5", "u6", "k1", "k2"}
AllSlots == {"A", "B", "G", "H", "Z", "Y"}
ForeignOwner == [x1 |-> "PX", x2 |-> "PX", y1 |-> "PY", F1 |-> "PX", F2 |-> "PX"]
ForeignEmpty == {"x2"}
ProxyOf == [Z |-> [prog |-> "PROXY", seed |-> "k1", bump |-> 253], Y |-> [prog |-> "PROXY", seed |-> "k2", bump |-> 255]]
MintOf == [M1 |-> [prog |-> "TOKEN", vault |-> "V1", asset |-> "W1", meta |-> "D1"],
           M2 |-> [prog |-> "TOKEN22", vault |-> "V2", asset |-> "W2", meta |-> "D2"],
           M3 |-> [prog |-> "PX", vault |-> "V3", asset |-> "W3", meta |-> "D3"]]
TokenAcct == [t11 |-> [mint |-> "M1", holder |-> "u1", rec |-> "r11"],
              t12 |-> [mint |-> "M1", holder |-> "u2", rec |-> "r12"],
              t13 |-> [mint |-> "M1", holder |-> "u3", rec |-> "r13"],
              t1v |-> [mint |-> "M1", holder |-> "V1", rec |-> "r1v"],
              t1w |-> [mint |-> "M1", holder |-> "V2", rec |-> "r1w"],
              t21 |-> [mint |-> "M2", holder |-> "u1", rec |-> "r21"],
              t22 |-> [mint |-> "M2", holder |-> "u2", rec |-> "r22"],
              t2v |-> [mint |-> "M2", holder |-> "V2", rec |-> "r2v"],
              t31 |-> [mint |-> "M3", holder |-> "u1", rec |-> "r31"]]
ImgLen == 999
=============================================================================
