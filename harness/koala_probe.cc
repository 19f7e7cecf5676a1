// The public headers of the KoalaBear extension must be usable.
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h"
int main() { tachyon::math::KoalaBear4 a = tachyon::math::KoalaBear4::One(); return a.IsOne() ? 0 : 1; }
