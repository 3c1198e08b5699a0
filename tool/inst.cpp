// instantiates every member of the iterator and accessor templates for the analysis; never linked or run
#include "Partio.h"
namespace Partio{
template class ParticleIterator<true>;
template class ParticleIterator<false>;
template<class A,class I> static const void* all(A& a,const A& ca,const I& it)
{
    const void* r[]={a.template raw<float>(it),a.template raw<int>(it),ca.template raw<float>(it),ca.template raw<int>(it),
        &a.template data<DataV>(it),&a.template data<DataI>(it),&ca.template data<DataV>(it),&ca.template data<DataI>(it)};
    return r[it.index&7];
}
const void* pv_instantiate(ParticleAccessor& a,const ParticleAccessor& ca,const ParticleIterator<true>& c,const ParticleIterator<false>& m,int k)
{
    ParticleAttribute attr;ParticleAccessor made(attr);
    return k==0?all(a,ca,c):k==1?all(a,ca,m):&made;
}
}
