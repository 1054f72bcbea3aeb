import re,os,shutil,sys
# Portable copy of /repo/nntl: MSVC-isms that clang rejects are rewritten (names are qualified,
# 'typename'/'template' added); no rule changes what the code does.  Every rule is a no-op where
# its pattern does not occur.      usage: port.py <repo> <outdir>
repo,out=sys.argv[1],sys.argv[2]
here=os.path.dirname(os.path.abspath(__file__))
src=os.path.join(repo,'nntl'); dst=os.path.join(out,'nntl')
shutil.rmtree(dst,ignore_errors=True); shutil.copytree(src,dst)
ex=os.path.join(out,'_extern'); shutil.rmtree(ex,ignore_errors=True)
os.makedirs(ex+'/agner.org/AF_randomc_h'); os.makedirs(ex+'/rapidjson'); os.symlink('/usr/include',ex+'/rapidjson/include')
shutil.copy(here+'/shim/af_random.h',ex+'/agner.org/AF_randomc_h/random.h')
def sub(f,*rules):
    p=os.path.join(dst,f)
    if not os.path.exists(p): return
    s=open(p,encoding='utf-8-sig',errors='surrogateescape').read()
    for a,b in rules:
        s,n=re.subn(a,b,s,flags=re.M)
        #print(f,n,a[:50])
    open(p,'w',encoding='utf-8',errors='surrogateescape').write(s)
p=os.path.join(dst,'interface/math/smatrix.h'); s=open(p,encoding='utf-8-sig').read()
i=re.search(r'^\s*class smatrix_deform\b',s,re.M); i=i.start() if i else len(s)
s=s[:i]+re.sub(r'\bsmatrix(&&?)',r'smatrix<T_>\1',s[i:]); open(p,'w').write(s)
sub('serialization/serialization.h',(r'nvp\(static_cast<const nvp&>\(rhs\)\)',r'nvp<T>(static_cast<const nvp<T>&>(rhs))'),(r'named_struct\(const nvp & rhs\) : nvp\(rhs\)',r'named_struct(const nvp<T> & rhs) : nvp<T>(rhs)'),(r'T & t\) : nvp\(name_',r'T & t) : nvp<T>(name_'))
sub('utils/options.h',(r', constexpr bool>',r', bool>'))
sub('train_data/_train_data_simple.h',(r'= flag_exclude_nothing\b',r'= DataSetsId::flag_exclude_nothing'))
sub('train_data/transf_train_data.h',(r'= flag_exclude_nothing\b',r'= DataSetsId::flag_exclude_nothing'),(r'typename NormF = self_t::template NormalizerF_tpl<StatsT, StatsFunctor_t>',r'typename NormF = ::nntl::_impl::td_norm<typename TFuncT::x_t, StatsT, StatsFuncT>'))
sub('train_data/_td_norm.h',(r'(?<!typename )decltype\(fn\)::mtx_update_t',r'typename decltype(fn)::mtx_update_t'),(r'typename self_t::mtx_update_t',r'typename StatsFunctor_t::mtx_update_t'))
sub('train_data/inmem_train_data.h',(r'= train_set_id\b',r'= DataSetsId::train_set_id'))

# generic: using Base::type_t;  -> using typename
GEN=[(r'((?:\.|->)\s*)(?!template\b|\w+_cast<)(\w+<(?:[^<>;()=&|]|<[^<>;()=&|]*>)*>\s*\()',r'\1template \2'),(r'(Thresholds_t::)(\w+<(?:[^<>;()=&|]|<[^<>;()=&|]*>)*>::)',r'\1template \2'),(r'^(\s*)using (?!std::)((?:[A-Za-z_]\w*(?:<[^;]*>)?::)*[A-Za-z_]\w*(?:<[^;]*>)?)::([A-Za-z]\w*_t);',r'\1using typename \2::\3;')]
for r,_,fs in os.walk(dst):
    for f in fs:
        if f.endswith('.h'): sub(os.path.relpath(os.path.join(r,f),dst),*GEN)
sub('interface/math/mathn.h',(r'OpType == (mrw_\w+)>',r'OpType == base_class_t::\1>'))
sub('interface/math/mathn.h',(r'(?<!typename )\brealmtx_t::tag_noBias\(\)',r'typename realmtx_t::tag_noBias()'))
sub('utils/tictoc.h',(r'high_resolution_clock',r'steady_clock'))

def classwise(f,rules,gen=None):
    # qualify names with the injected-class-name of the (last opened) class
    p=os.path.join(dst,f); lines=open(p,encoding='utf-8-sig',errors='surrogateescape').read().split('\n'); cur=None; out=[]
    for l in lines:
        m=re.match(r'^\s*(?:class|struct)\s+(\w+)(\s+final)?\s*(:|\{|$)',l)
        if m: cur=m.group(1)
        for a,b in rules: l=re.sub(a,b.replace('@',cur or '@'),l)
        out.append(l)
    open(p,'w',encoding='utf-8',errors='surrogateescape').write('\n'.join(out))
classwise('common_nn_data.h',[(r'bool B = bAllowToBlockLearning',r'bool B = @::bAllowToBlockLearning'),(r', static void>',r', void>')])
for f in ('_i_loss_addendum','L1','L2','DeCov'):
  classwise('loss_addendum/%s.h'%f,[(r'bool c = (calcOnFprop|appendToNZGrad)\b',r'bool c = @::\1'),(r'const mtx_size_t biggestMtx',r'const ::nntl::math::smatrix_td::mtx_size_t biggestMtx')])
sub('loss_addendum/_i_loss_addendum.h',(r'bool c = _i_loss_addendum::calcOnFprop','bool c = false'))
sub('layers.h',(r'typedef typename iMath_t::(realmtx(def)?_t)',r'typedef typename input_layer_t::iMath_t::\1'))
sub('layer/fully_connected.h',(r'static_assert\(bActivation',r'static_assert(_base_class_t::bActivation'))
sub('layer/output.h',(r'static_assert\(bActivationForOutput && bActivationForHidden',r'static_assert(_base_class_t::bActivationForOutput && _base_class_t::bActivationForHidden'))
sub('layer/pack_horizontal_optional.h',(r'gated_layers_count = phl_count',r'gated_layers_count = _base_class_t::phl_count'))
for f in ('nnet_evaluator.h','training_observer.h'):
  sub(f,(r'static_assert\((0 <= )?(t\w+_set_id)',r'static_assert(\1DataSetsId::\2'),(r'(&&|!=) (t\w+_set_id)',r'\1 DataSetsId::\2'))
sub('nnet.h',(r'typedef typename iMath_t::(realmtx(def)?_t)',r'typedef typename LayersPack::iMath_t::\1'),(r'#include "../../nntl/nntl/_supp/io/matfile.h"',r'#include "_supp/io/matfile.h"'))

sub('train_data/_td_base.h',(r'is_base_of<_i_train_data,',r'is_base_of<_i_train_data<XT,YT>,'),
 (r'typename StatsFuncT = typename self_t::default_StatsFuncT',r'typename StatsFuncT = default_StatsFuncT'),(r'typename NormF = self_t::template NormalizerF_tpl<StatsT, StatsFuncT>',r'typename NormF = NormalizerF_tpl<StatsT, StatsFuncT>'),
 (r'case (t\w+_set_id)',r'case DataSetsId::\1'))
sub('layer/_layer_base.h',(r'template<bool c = is_layer_learnable<self_t>::value >',r'template<typename _S4T=self_t, bool c = is_layer_learnable<_S4T>::value >'))
sub('interface/math/smath.h',(r'^(\s*)F\.op<',r'\1F.template op<'))
sub('interface/math/mathn.h',(r'typedef bindingBlasT b_BLAS_t;',r'typedef bindingBlasT b_BLAS_t; typedef FinalPolymorphChild self_t; template<class CRDT_> using converter_reduce_data_tpl = typename iThreadsT::template converter_reduce_data_t<CRDT_>;'))
sub('interface/threads/workers.h',(r'typedef CallHandlerT CallH_t;',r'typedef CallHandlerT CallH_t; template<class CRDT_> using converter_reduce_data_t = typename _i_threads<RealT, RangeT>::template converter_reduce_data_t<CRDT_>;'))
for f in os.listdir(dst+'/layer'):
  sub('layer/'+f,(r'is_base_of<(_i_layer_fprop|_i_layer_trainable|_i_layer), ',r'is_base_of<\1<real_t>, '),(r', realmtx_t::tag_noBias\(\)',r', typename _base_class_t::realmtx_t::tag_noBias()'))
for f in os.listdir(dst+'/layer'):
  sub('layer/'+f,(r'^(?!.*typedef)(.*)$',lambda m: re.sub(r'(?<![:\w])ErrorCode\b(?!\s*[;,])','::nntl::_nnet_errs::ErrorCode',re.sub(r'(?<![:\w])mtx_size_t\b','::nntl::math::smatrix_td::mtx_size_t',m.group(1)))))
  sub('layer/'+f,(r'(?<![:\w])realmtx_t::sNumel\b',r'::nntl::math::smatrix_td::sNumel'))
sub('layer/_layer_base.h',(r'(?<![\w.>])get_self\(\)\._forwarder_layer',r'this->get_self()._forwarder_layer'))
sub('_supp/io/matfile.h',(r'(class _matfile : public _matfile_base<ErrorsClassT>[^{]*\{)',r'\1 public: typedef typename _matfile_base<ErrorsClassT>::FileOpenMode FileOpenMode; '))
sub('utils/mixins.h',(r'm_opts\.(get|set)<',r'm_opts.template \1<'))
shutil.copy(dst+'/interface/rng/afrand_mt_thr.h',dst+'/interface/rng/AFRAND_MT_THR.h')

# the thresholds that choose between implementations become overridable: = NNTL_THRV(value)
for f in ('interface/math/smath_thr.h','interface/math/mathn_thr.h'):
  sub(f,(r'(static constexpr (?:numel_cnt_t|vec_len_t) (?!\w*(?:PerThread|perThread))\w+\s*=\s*)([^;]+);',r'\1NNTL_THRV(\2);'),(r'\A',r'#ifndef NNTL_THRV\n#define NNTL_THRV(x) (x)\n#endif\n'))
# inspectors: names of a dependent base, MSVC's std::stack internals
for f in ('dumper','stdcout'):
  sub('interface/inspectors/%s.h'%f,(r'<layer_index_t, _NoLayerIdxSpecified,',r'<layer_index_t, _impl::_base<RealT>::_NoLayerIdxSpecified,'))
sub('interface/inspectors/stdcout.h',(r'typedef stdcout<real_t,',r'typedef stdcout<RealT,'),(r'static constexpr char\*',r'static constexpr const char*'),(r'lIdx == _NoLayer',r'lIdx == _impl::_base<RealT>::_NoLayer'))
sub('interface/inspectors/dumper.h',(r'static constexpr char\*',r'static constexpr const char*'),(r'static void _epic_fail',r'static void _epic_fail'))
sub('utils/layer_idx_keeper.h',(r'_base_class_t::_Get_container\(\)',r'this->c'),(r'(?<![\w.>])c\.reserve',r'this->c.reserve'),(r'\bsize_type\b',r'typename _base_class_t::size_type'))
