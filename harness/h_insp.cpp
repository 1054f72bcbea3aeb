// What inspectors observe (P20): a recording inspector on every architecture; the recorded history is checked against the structure of
// the network, the chain of the data between layers and the arithmetic every notification stands for.
#include "rec.hpp"
#define NET_INSP rec::Rec
#define NETX void walk(std::vector<rec::LI>&v)override{ lp.for_each_packed_layer([&](auto&l){ rec::walk(l,-1,v); }); }
#define NETX_BASE virtual void walk(std::vector<rec::LI>&)=0;
#include "archs.hpp"
namespace rec{
	template<class L> void walk(L&l,int parent,std::vector<LI>&v){ namespace n=nntl; int me=(int)v.size(); v.emplace_back(); LI i; i.idx=(int)l.get_layer_idx(); i.parent=parent; i.name=l.get_layer_name_str(); i.type=(unsigned)l.get_layer_type_id(); i.neurons=(int)l.get_neurons_cnt(); i.inc=parent<0&&me==0?0:(int)l.get_incoming_neurons_cnt(); i.drop=0;
		i.kind=n::is_pack_gated<L>::value?5:n::is_pack_tiled<L>::value?4:n::is_layer_LPH<L>::value?3:n::is_layer_pack<L>::value?2:HasW<L>::value?1:parent<0&&me==0?0:6; i.bprop=n::is_layer_with_bprop<L>::value; i.trivial=n::layer_has_trivial_bprop<L>::value; i.ident=false;
		i.act=[&l]{ return mx(l.get_activations()); }; if constexpr(HasW<L>::value) i.W=[&l]{ return mx(l.get_weights(),false); }; if constexpr(HasD<L>::value) i.drop=l.bDropout();
		v[me]=i; if constexpr(n::is_layer_pack<L>::value) l.for_each_packed_layer([&](auto&c){ v[me].ch.push_back((int)v.size()); walk(c,me,v); }); }
	struct Node{ int l; Mx in,out; bool tr=false; std::vector<Node> ch; std::vector<const Ev*> ev; };
	struct Ck{ std::string h; const std::vector<LI>&L; std::vector<int> top; bool train=false; std::map<int,Node*> fn; Ck(const std::vector<LI>&L,const std::string&h):h(h),L(L){ for(size_t i=0;i<L.size();i++) if(L[i].parent<0) top.push_back((int)i); }
#define IC(c,...) do{ if(!(c)) fail(__VA_ARGS__); mc::C().checks++; }while(0)
		void fail(const char*f,...){ char b[300]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); mc::fail("%s | %s",b,h.c_str()); }
		const char* nm(int i){ return L[i].name.c_str(); }
		// the notifications since 'from' as a forest of begin/end pairs
		std::vector<Node> parse(size_t from,K b,K e){ std::vector<Node> roots; std::vector<Node> st; for(size_t i=from;i<E.size();i++){ auto&v=E[i]; if(v.k==b){ Node n; n.l=-1; for(size_t q=0;q<L.size();q++) if(L[q].idx==v.l) n.l=(int)q; IC(n.l>=0,"a notification for an unknown layer index %d",v.l); n.in=v.a; n.tr=v.tr; st.push_back(n); }
				else if(v.k==e){ IC(!st.empty(),"an end without a begin"); Node n=st.back(); st.pop_back(); n.out=v.a; if(st.empty()) roots.push_back(n); else st.back().ch.push_back(n); }
				else if(v.k==PD||v.k==QD) continue; else { IC(!st.empty(),"notification %d outside of any layer",(int)v.k); st.back().ev.push_back(&v); } }
			IC(st.empty(),"%d begins without an end, the last for %s",(int)st.size(),st.empty()?"":nm(st.back().l)); return roots; }
		static Mx sub(const Mx&m,int o,int n){ Mx q; q.r=m.r; q.c=n; q.a.assign(m.a.begin()+(size_t)o*m.r,m.a.begin()+(size_t)(o+n)*m.r); return q; }
		static Mx gate(const Mx&m,const std::vector<int>&ix){ Mx q; q.r=(int)ix.size(); q.c=m.c; for(int j=0;j<m.c;j++) for(int i:ix) q.a.push_back(m(i,j)); return q; }
		static int find(const Mx&big,const Mx&s){ for(int o=0;o+s.c<=big.c;o++) if(sub(big,o,s.c)==s) return o; return -1; }
		void near(double a,double b,const char*w,int l){ IC(std::fabs(a-b)<=1e-11*(1+std::fabs(b)),"%s of %s: %.15g, expected %.15g",w,nm(l),a,b); }
		static bool perm(Mx a,Mx b){ std::sort(a.a.begin(),a.a.end()); std::sort(b.a.begin(),b.a.end()); return a.a==b.a; }
		void one(Node&n,K k,const Mx&m,const char*w){ int c=0; for(auto*e:n.ev) if(e->k==k){ c++; IC(e->a==m,"%s: the notification %s carries a different matrix",nm(n.l),w); } IC(c==1,"%s: %d notifications %s",nm(n.l),c,w); }
		const Ev* opt(Node&n,K k){ const Ev*r=nullptr; for(auto*e:n.ev) if(e->k==k){ IC(!r,"%s: notification %d repeated",nm(n.l),(int)k); r=e; } return r; }
		void F(Node&n,int want,const Mx&in){ IC(n.l==want,"forward pass of %s is reported instead of %s",nm(n.l),nm(want)); auto&i=L[want]; fn[want]=&n; IC(n.tr==train,"%s: the mode is reported wrong",nm(want)); IC(n.in==in,"%s: the incoming activations are reported wrong",nm(want)); bool pd=false; for(int q=want;q>=0;q=L[q].parent) pd|=L[q].drop!=0; IC(train&&pd?n.out.r>0&&n.out.c==i.neurons:i.kind==6?n.out==in:n.out==i.act(),"%s: the resulting activations are reported wrong",nm(want)); one(n,FA,n.out,"activations");
			for(auto*e:n.ev) IC(e->k==FA||(i.kind==1&&(e->k==FW||e->k==FZ)),"%s: notification %d in a forward pass",nm(want),(int)e->k);
			if(i.kind==1){ auto*w=opt(n,FW),*z=opt(n,FZ); IC(w&&z&&n.ev[0]==w&&n.ev[1]==z,"%s: preactivations are not reported",nm(want)); IC(w->a==i.W(),"%s: weights are reported wrong",nm(want)); IC(w->b==in,"%s: preactivations of other data",nm(want)); IC(z->a.r==in.r&&z->a.c==i.neurons,"%s: size of the preactivations",nm(want)); for(int r=0;r<in.r;r++) for(int c=0;c<i.neurons;c++){ long double s=w->a(c,in.c); for(int k=0;k<in.c;k++) s+=(long double)w->a(c,k)*in(r,k); near(z->a(r,c),(double)s,"preactivation",want); } IC(n.ch.empty(),"%s: nested layers",nm(want)); return; }
			if(i.kind==0||i.kind==6){ IC(n.ch.empty(),"%s: nested layers",nm(want)); if(i.kind==0) IC(n.out==in,"input layer alters the data"); return; }
			auto&ch=i.ch; if(i.kind!=5) IC(n.ch.size()==ch.size(),"%s: %d of %d inner layers reported",nm(want),(int)n.ch.size(),(int)ch.size());
			if(i.kind==2){ Mx cur=in; for(size_t k=0;k<ch.size();k++){ F(n.ch[k],ch[k],cur); cur=L[ch[k]].act(); } IC(n.out==cur||(train&&i.drop),"%s: activations differ from its last layer's",nm(want)); }
			if(i.kind==3){ int o=0; for(size_t k=0;k<ch.size();k++){ int c=n.ch[k].in.c; IC(c==L[ch[k]].inc&&find(in,n.ch[k].in)>=0,"%s: incoming activations of the part %s",nm(want),nm(ch[k])); F(n.ch[k],ch[k],n.ch[k].in); int nc=L[ch[k]].neurons; IC(o+nc<=n.out.c&&sub(n.out,o,nc)==(train&&pd?n.ch[k].out:L[ch[k]].act()),"%s: activations differ from those of the part %s",nm(want),nm(ch[k])); o+=nc; } IC(o==n.out.c,"%s: width",nm(want)); }
			if(i.kind==4){ int t=in.c/L[ch[0]].inc; IC(n.ch[0].in.r==in.r*t&&perm(n.ch[0].in,in),"%s: incoming activations of the tile",nm(want)); F(n.ch[0],ch[0],n.ch[0].in); IC(n.out.r*t==n.ch[0].out.r&&perm(n.out,n.ch[0].out),"%s: activations differ from those of the tile",nm(want)); }
			if(i.kind==5){ IC(!n.ch.empty(),"%s: no gate",nm(want)); IC(find(in,n.ch[0].in)>=0,"%s: incoming activations of the gate",nm(want)); F(n.ch[0],ch[0],n.ch[0].in); Mx g=L[ch[0]].act(); int o=n.out.c; for(size_t k=1;k<ch.size();k++) o-=L[ch[k]].neurons; size_t at=1; for(size_t k=1;k<ch.size();k++){ std::vector<int> ix; for(int r=0;r<g.r;r++) if(g(r,(int)k-1)!=0) ix.push_back(r); int nc=L[ch[k]].neurons; Mx so=sub(n.out,o,nc); if(ix.empty()){ for(double d:so.a) IC(d==0,"%s: a closed part is not zero",nm(want)); } else { IC(at<n.ch.size(),"%s: the part %s is not reported",nm(want),nm(ch[k])); auto&c=n.ch[at++]; IC(find(gate(in,ix),c.in)>=0,"%s: incoming activations of the part %s",nm(want),nm(ch[k])); F(c,ch[k],c.in); IC(gate(so,ix)==L[ch[k]].act(),"%s: activations differ from those of the part %s",nm(want),nm(ch[k])); } o+=nc; } IC(at==n.ch.size(),"%s: a closed part is reported",nm(want)); }
		}
		// dropout notifications: each pre is followed by its post; the surviving values are scaled and the mask tells which
		void drops(size_t from,const char*arch){ size_t c=0; for(size_t i=from;i<E.size();i++) if(E[i].k==PD){ c++; IC(i+1<E.size()&&E[i+1].k==QD,"dropout begin without its end"); auto&p=E[i],&q=E[i+1]; IC(p.a.r==q.a.r&&p.a.c==q.a.c&&p.b.r==p.a.r&&p.b.c==p.a.c&&q.b.r==p.a.r&&q.b.c==p.a.c,"dropout: sizes"); bool al=strstr(arch,"alpha"); for(size_t k=0;k<p.a.a.size();k++){ bool keep=p.b.a[k]<p.s; IC((q.b.a[k]!=0)==keep,"dropout: the mask after dropout disagrees with the draws"); if(!al) near(q.a.a[k],keep?p.a.a[k]/p.s:0,"value after dropout",0); } bool own=false; for(auto&n:fn) if(train&&L[n.first].drop&&n.second->out==p.a) own=true; IC(own,"dropout is reported over values that no layer produced"); } else if(E[i].k==QD) IC(i>from&&E[i-1].k==PD,"dropout end without its begin"); size_t d=0; if(train) for(auto&l:L) d+=l.drop; IC(c==d,"%d dropout notifications, expected %d",(int)c,(int)d); }
		void fprop(std::vector<Node>&r,const Mx&x,size_t from,const char*arch){ IC(r.size()==top.size(),"%d layers are reported in a forward pass instead of %d",(int)r.size(),(int)top.size()); Mx cur=x; for(size_t k=0;k<r.size();k++){ F(r[k],top[k],cur); cur=L[top[k]].act(); } drops(from,arch); }
		std::vector<int> down(const std::vector<int>&v,bool sk){ std::vector<int> q; for(size_t k=v.size();k--;) if(L[v[k]].bprop&&!(sk&&L[v[k]].trivial)) q.push_back(v[k]); return q; }
		// prev: the layer under this one propagates further
		void B(Node&n,int want,const Mx&d,bool prev,const std::vector<Mx>&W0){ IC(n.l==want,"backward pass of %s is reported instead of %s",nm(n.l),nm(want)); auto&i=L[want]; IC(n.in==d,"%s: dL/dA is reported wrong",nm(want)); auto*f=fn.count(want)?fn[want]:nullptr; IC(f,"%s: backward pass without a forward pass",nm(want)); bool outp=want==top.back();
			if(prev) IC(n.out.r==f->in.r&&n.out.c==f->in.c,"%s: size of dL/dA for the lower layer",nm(want));
			if(n.ch.size()==1&&n.ch[0].l==n.l){ auto*bf=opt(n,BF); IC(bf,"%s: no final dL/dA",nm(want)); Mx cur=d; for(auto*e:n.ev){ if(e->k==CD1){ IC(e->a==cur&&e->b==i_act(want),"%s: dropout cancellation",nm(want)); } else if(e->k==CD2){ IC(e->b==f->out,"%s: activations are not restored",nm(want)); IC(e->a.r==cur.r&&e->a.c==cur.c,"%s: dL/dA after dropout",nm(want)); const Ev*m=mask(f->out); IC(m,"%s: no mask",nm(want)); for(size_t k=0;k<cur.a.size();k++) near(e->a.a[k],m->b.a[k]*cur.a[k],"dL/dA after dropout",want); cur=e->a; } else if(e->k==LAD){ int off=cur.c-e->a.c; IC(off>=0&&e->a.r==cur.r&&(off==0)==(i.kind!=5),"%s: size of the addendum",nm(want)); IC(e->a==sub(cur,off,e->a.c)||lads(n)>1,"%s: dL/dA before the addendum",nm(want)); bool nz=strstr(h.c_str(),"_f")!=nullptr; if(lads(n)==1&&!i.drop&&!nz) for(size_t k=0;k<cur.a.size();k++) near(bf->a.a[k],k<(size_t)off*cur.r?cur.a[k]:cur.a[k]+e->s*e->b.a[k-(size_t)off*cur.r],"final dL/dA",want); } else IC(e->k==BF,"%s: notification %d",nm(want),(int)e->k); }
				IC((opt(n,CD1)!=nullptr)==(i.drop!=0)&&(opt(n,CD2)!=nullptr)==(i.drop!=0),"%s: dropout cancellation is not reported",nm(want)); IC(n.out==n.ch[0].out||!prev,"%s: dL/dA for the lower layer is reported differently",nm(want)); fin[want]=true; B(n.ch[0],want,bf->a,prev,W0); return; }
			if(outp) IC(!opt(n,BF),"output layer: final dL/dA"); else one(n,BF,d,"final dL/dA");
			if(i.kind==1){ auto*z=opt(n,BZ); IC(z,"%s: dL/dZ is not reported",nm(want)); Mx dz=z->a; IC(dz.r==f->out.r&&dz.c==i.neurons,"%s: size of dL/dZ",nm(want));
				if(outp){ auto*o=opt(n,BO); IC(o&&o->a==f->out&&o->b==d,"output layer: activations and labels before dL/dZ"); if(auto*c=opt(n,BC)){ for(size_t k=0;k<dz.a.size();k++){ double e=std::min(c->s,std::max(c->s2,dz.a[k])); if(c->s<c->s2) e=std::min(c->s2,std::max(c->s,dz.a[k])); IC(c->a.a[k]==e,"output layer: clamped dL/dZ"); } dz=c->a; } }
				else { auto*p=opt(n,BP); IC(p&&p->a==f->out,"%s: activations before dA/dZ",nm(want)); if(auto*q=opt(n,BD)){ for(size_t k=0;k<dz.a.size();k++) IC(dz.a[k]==q->a.a[k]*d.a[k]||(dz.a[k]==0&&q->a.a[k]*d.a[k]==0),"%s: dL/dZ is not dA/dZ times dL/dA",nm(want)); } else IC(dz==d,"%s: dL/dZ without dA/dZ",nm(want)); }
				auto*w=opt(n,BW),*gb=opt(n,GB),*ge=opt(n,GE),*gu=opt(n,GU); const Mx&Wb=W0[want]; if(!w){ IC(!gb&&!ge&&!gu,"%s: an update without a gradient",nm(want)); IC(i.W()==Wb,"%s: weights change without a notification",nm(want)); } else { IC(w->a==dz&&w->b==f->in,"%s: data of the gradient",nm(want)); IC(gb&&ge&&gu,"%s: the update is not reported",nm(want)); for(int r=0;r<Wb.r;r++) for(int c=0;c<Wb.c;c++){ long double s=0; for(int k=0;k<dz.r;k++) s+=(long double)dz(k,r)*(c<f->in.c?f->in(k,c):1); near(w->c(r,c),(double)(s/dz.r),"dL/dW",want); near(ge->a(r,c),gu->a(r,c)-gu->b(r,c),"updated weight",want); } IC(gb->a==Wb&&gb->b==w->c,"%s: weights or gradient at the start of the update",nm(want)); IC(gu->a==Wb,"%s: weights before the update",nm(want)); IC(ge->a==i.W(),"%s: weights after the update",nm(want)); }
				if(prev) for(int r=0;r<n.out.r;r++) for(int c=0;c<n.out.c;c++){ long double s=0; for(int k=0;k<dz.c;k++) s+=(long double)dz(r,k)*Wb(k,c); near(n.out(r,c),(double)s,"dL/dA for the lower layer",want); }
				size_t o=0; static const K ord[]={BF,BO,BP,BD,BZ,BC,BW,GB,GU,GE}; for(auto*e:n.ev){ while(o<10&&ord[o]!=e->k) o++; IC(o<10,"%s: notification %d out of order",nm(want),(int)e->k); } IC(n.ch.empty(),"%s: nested layers",nm(want)); return; }
			for(auto*e:n.ev) IC(e->k==BF,"%s: notification %d in a backward pass",nm(want),(int)e->k);
			if(i.kind==6){ IC(n.ch.empty(),"%s: nested layers",nm(want)); if(prev) IC(n.out==d,"%s: dL/dA altered",nm(want)); return; }
			std::vector<int> ex=i.kind==5?std::vector<int>():down(i.ch,false); if(i.kind==5){ for(size_t k=i.ch.size();k--;) if(fn.count(i.ch[k])&&(k||!L[i.ch[0]].trivial)) ex.push_back(i.ch[k]); }
			IC(n.ch.size()==ex.size(),"%s: %d of %d inner layers in a backward pass",nm(want),(int)n.ch.size(),(int)ex.size());
			if(i.kind==2){ Mx cur=d; for(size_t k=0;k<ex.size();k++){ bool p=k+1<ex.size()||(k+1==i.ch.size()&&prev); B(n.ch[k],ex[k],cur,p,W0); cur=n.ch[k].out; } if(prev) IC(n.out==cur,"%s: dL/dA for the lower layer differs from its first layer's",nm(want)); }
			if(i.kind==3){ Mx sum; sum.r=n.out.r; sum.c=n.out.c; sum.a.assign((size_t)sum.r*sum.c,0); std::vector<bool> seen(L.size()); for(auto&c:n.ch){ int o=0; for(int q:i.ch){ if(q==c.l) break; o+=L[q].neurons; } IC(L[c.l].parent==want&&!seen[c.l],"%s: %s twice",nm(want),nm(c.l)); seen[c.l]=true; B(c,c.l,sub(d,o,L[c.l].neurons),prev,W0); if(prev){ int at=find(f->in,fn[c.l]->in); for(int q=0;q<c.out.c;q++) for(int r=0;r<c.out.r;r++) sum.a[(size_t)(at+q)*sum.r+r]+=c.out(r,q); } } if(prev) for(size_t k=0;k<sum.a.size();k++) near(n.out.a[k],sum.a[k],"dL/dA for the lower layer",want); }
			if(i.kind==4&&n.ch.size()){ IC(perm(n.ch[0].in,d),"%s: dL/dA of the tile",nm(want)); B(n.ch[0],ex[0],n.ch[0].in,prev,W0); if(prev) IC(perm(n.ch[0].out,n.out),"%s: dL/dA for the lower layer",nm(want)); }
			if(i.kind==5){ Mx g=af[i.ch[0]]; int no=0; for(auto&c:n.ch) (void)c; int o=d.c; std::map<int,int> of; for(size_t k=i.ch.size();k-->1;){ o-=L[i.ch[k]].neurons; of[i.ch[k]]=o; } (void)no; for(size_t q=0;q<n.ch.size();q++){ auto&c=n.ch[q]; IC(c.l==ex[q],"%s: %s instead of %s",nm(want),nm(c.l),nm(ex[q])); if(c.l==i.ch[0]) continue; int k=0; while(i.ch[k]!=c.l) k++; std::vector<int> ix; for(int r=0;r<g.r;r++) if(g(r,k-1)!=0) ix.push_back(r); B(c,c.l,gate(sub(d,of[c.l],L[c.l].neurons),ix),prev,W0); if(prev) IC(find(gate(n.out,ix),c.out)>=0,"%s: dL/dA for the lower layer from %s",nm(want),nm(c.l)); } }
		}
		std::map<int,bool> fin; Mx acts[1]; std::map<int,Mx> af; Mx i_act(int l){ return af[l]; } const Ev* mask(const Mx&pre){ for(size_t i=0;i<E.size();i++) if(E[i].k==QD&&i&&E[i-1].a==pre) return &E[i]; return nullptr; } int lads(Node&n){ int c=0; for(auto*e:n.ev) c+=e->k==LAD; return c; }
		void bprop(std::vector<Node>&r,const Mx&y,const std::vector<Mx>&W0){ auto ex=down(top,false); IC(r.size()==ex.size()||r.size()+1==ex.size(),"%d layers are reported in a backward pass instead of %d",(int)r.size(),(int)ex.size()); Mx cur=y; for(size_t k=0;k<r.size();k++){ bool p=k+1<r.size(); B(r[k],ex[k],cur,p,W0); cur=r[k].out; } }
		void init(size_t from,int ep){ std::map<int,int> c; size_t nets=0; for(size_t i=from;i<E.size();i++){ if(E[i].k==NET){ IC(!nets&&c.empty(),"the network is announced late or twice"); nets++; IC(E[i].l==(int)L.size(),"%d layers announced, there are %d",E[i].l,(int)L.size()); } if(E[i].k==LAYER){ bool f=false; for(auto&l:L) if(l.idx==E[i].l){ f=true; IC(l.name==E[i].n&&l.type==(unsigned)E[i].s,"layer %d is announced as %s",l.idx,E[i].n.c_str()); } IC(f,"an unknown layer %d is announced",E[i].l); c[E[i].l]++; } }
			IC(nets==1,"the network is announced %d times",(int)nets); for(auto&l:L) IC(c[l.idx]==1,"layer %s is announced %d times",l.name.c_str(),c[l.idx]); }
	};
}
using rec::Ck;
// a forward pass is checked at its end (while the activations are there), a backward pass after it
static void trainStep(INet&n,const std::vector<rec::LI>&L,const std::string&h,const math::smatrix<R>&x,const math::smatrix<R>&y,const char*arch){ rec::E.clear(); n.fpropTrain(x); mc::op(); Ck c(L,h); c.train=true; auto f=c.parse(0,rec::FB,rec::FE); c.fprop(f,rec::mx(x),0,arch); std::vector<rec::Mx> W0; for(auto&l:L) W0.push_back(l.W?l.W():rec::Mx()); for(size_t i=0;i<L.size();i++) if(c.fn.count((int)i)) c.af[(int)i]=L[i].act(); size_t b=rec::E.size(); std::vector<rec::Ev> keep; keep.reserve(b); n.bprop(y); mc::op(); auto bp=c.parse(b,rec::BB,rec::BE); c.bprop(bp,rec::mx(y),W0); CHECK(rec::mx(x)==f[0].in,"training data changed | %s",h.c_str()); }
static void inferStep(INet&n,const std::vector<rec::LI>&L,const std::string&h,const math::smatrix<R>&x,bool fixed,const char*arch){ rec::E.clear(); if(fixed) n.fixedFprop(x); else CHECK(n.infer(x),"fprop failed | %s",h.c_str()); mc::op(); size_t b=0; for(size_t i=0;i<rec::E.size();i++) if(rec::E[i].k==rec::LAYER||rec::E[i].k==rec::NET) b=i+1; Ck c(L,h); auto f=c.parse(b,rec::FB,rec::FE); c.fprop(f,rec::mx(x),b,arch); }
static void scen(bool hist){ int ai=mc::choose((int)archs().size()); auto&A=archs()[ai]; int wp=hist?ai%3:mc::choose(3), W=hist?1+ai%4:1+mc::choose(4), bs=hist?2:1+mc::choose(3), dp=hist?0:mc::choose(2); g_W=W; g_order=ai&1; mc::shard(); rngPat(0); rec::E.clear(); NP n=A.mk(); Run r(*n); r.gates=n->positiveX?(hist?0x2d:mc::choose(1<<(2*bs))):0; char b[200]; snprintf(b,sizeof b,"arch=%s weights=%d threads=%d bs=%d data=%d gates=%d",A.n,wp,W,bs,dp,r.gates); r.hist=b;
	CHECK(n->init(3,3),"init | %s",b); std::vector<rec::LI> L; n->walk(L); { Ck c(L,b); c.init(0,1); } r.readW(); r.setPat(wp); g_mask.clear(); uint64_t key=mc::hmix(ai*1000+wp,bs*100+W*10+dp+r.gates*1000);
	if(!hist){ bool msk=std::string(A.n).find("dropout")!=std::string::npos; if(msk){ int m=mc::choose(1<<(2*bs)); for(int q=0;q<2*bs;q++) g_mask.push_back((m>>q)&1); char t[40]; snprintf(t,sizeof t," mask=%x",m); r.hist+=t; key=mc::hmix(key,m); } rngPat(msk?-1:0); g_dr=0; trainStep(*n,L,r.hist,r.X(bs,dp),r.Y(bs,dp),A.n); rngPat(1); inferStep(*n,L,r.hist,r.X(bs,1-dp),false,A.n); mc::state(key); }
	else { static const char*ON[]={"train1","train2","infer1","infer3","fixed2","reinit"}; int D=mc::thorough()?5:3; for(int s=0;s<D;s++){ int o=mc::choose(6); r.hist+=" "; r.hist+=ON[o]; key=mc::hmix(key,o+1); rngPat(s%3);
			switch(o){ case 0: case 1:{ rec::E.clear(); CHECK(n->init(3,3),"init failed | %s",r.hist.c_str()); trainStep(*n,L,r.hist,r.X(o+1,s%2),r.Y(o+1,s%2),A.n); break; } case 2: case 3: inferStep(*n,L,r.hist,r.X(o==2?1:3,s%2),false,A.n); break; case 4: if(!n->initd(2,0)) throw mc::Skip(); inferStep(*n,L,r.hist,r.X(2,s%2),true,A.n); break; case 5:{ n->reinit(); rec::E.clear(); CHECK(n->init(3,3),"init failed | %s",r.hist.c_str()); Ck c(L,r.hist); c.init(0,1); break; } }
			mc::state(key); } }
	uint64_t h=0; for(auto&l:L) if(l.W){ auto w=l.W(); h=mc::hmix(h,mc::hbytes(w.a.data(),w.a.size()*8)); } mc::outcome(h); mc::sample("%s",r.hist.c_str()); }
SCENARIO(step){ scen(false); }
SCENARIO(histories){ scen(true); }
