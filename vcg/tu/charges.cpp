// explicit instantiations of the charge templates of /repo, nothing else
#include "Conserved/quantity.h"
#include "Conserved/quantity_utils.h"
namespace quantit { namespace conserved {
template class C<5>;
template C<5> op<C<5>>(C<5>, const C<5> &);
template Z op<Z>(Z, const Z &);
template int64_t distance2<5>(C<5>, C<5>);
template void swap<5>(C<5> &, C<5> &) noexcept;
} }
static quantit::conserved::Z verif_use(quantit::conserved::Z a, quantit::conserved::Z b, quantit::conserved::C<5> c, quantit::conserved::C<5> d)
{
	// odr-use of the friend and inline functions so that their bodies are emitted
	(void)(c + d); (void)(c * d); (void)(a * b); (void)distance2(a, b); swap(a, b);
	return a + b;
}
