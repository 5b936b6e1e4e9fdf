#include "h.hpp"
#include <um2/common/logger.hpp>
#include <um2/mesh/face_vertex_mesh.hpp>
#include <um2/mesh/polytope_soup.hpp>
using namespace h;
using um2::PolytopeSoup;
using um2::VTKElemType;

static double const U = 16; // coordinates are given in sixteenths

template <Int P, Int N>
static std::string
mesh(um2::FaceVertexMesh<P, N> const & m)
{
  return Obj()
      .i("ty", N)
      .raw("v", arr(m.vertices(), [](auto const & p) { return "[" + sfx(p[0], U) + "," + sfx(p[1], U) + "]"; }))
      .raw("f", arr(m.faceVertexConn(), [](auto const & f) { return ints(f); }))
      .done();
}
static std::string
pt(um2::Point2F const & p)
{
  return "[" + sfx(p[0], U) + "," + sfx(p[1], U) + "]";
}

struct B {
  int ty = 3;
  bool vf = false;
  um2::TriFVM m3;
  um2::QuadFVM m4;
  um2::Tri6FVM m6;
  um2::Quad8FVM m8;
  B()
  {
    um2::logger::exit_on_error = false;
    um2::logger::level = um2::logger::levels::error;
  }
  template <class F>
  void
  on(F f)
  {
    if (ty == 3) f(m3);
    else if (ty == 4) f(m4);
    else if (ty == 6) f(m6);
    else f(m8);
  }
  static int
  errs()
  {
    std::string const s = cap.out() + cap.err();
    return countSub(s, "ERROR");
  }
  template <Int P, Int N>
  void
  run(std::string const & k, Tok & t, Obj & o, um2::FaceVertexMesh<P, N> & m)
  {
    using M = um2::FaceVertexMesh<P, N>;
    using FC = typename M::FaceConn;
    VTKElemType const vt = N == 3 ? VTKElemType::Triangle : N == 4 ? VTKElemType::Quad : N == 6 ? VTKElemType::QuadraticTriangle : VTKElemType::QuadraticQuad;
    long ret = 0;
    if (k == "new") {
      m = M();
      vf = false;
    } else if (k == "addv") {
      double const x = t.d() / U, y = t.d() / U;
      m.addVertex({x, y});
      vf = false;
    } else if (k == "addf") {
      FC c;
      for (Int i = 0; i < N; ++i) c[i] = t.i();
      m.addFace(c);
      vf = false;
    } else if (k == "build") {
      std::string const via = t.w();
      int const nv = t.i();
      std::vector<std::vector<double>> v;
      for (int i = 0; i < nv; ++i) {
        double const x = t.d() / U, y = t.d() / U, z = t.d() / U;
        v.push_back({x, y, z});
      }
      int const nf = t.i();
      std::vector<FC> f(static_cast<size_t>(nf));
      for (auto & c : f)
        for (Int i = 0; i < N; ++i) c[i] = t.i();
      if (via == "list") {
        um2::Vector<um2::Point2F> vv;
        um2::Vector<FC> ff;
        for (auto const & p : v) vv.push_back(um2::Point2F(p[0], p[1]));
        for (auto const & c : f) ff.push_back(c);
        m = M(vv, ff);
      } else {
        PolytopeSoup s;
        for (auto const & p : v) s.addVertex(p[0], p[1], p[2]);
        for (auto const & c : f) {
          um2::Vector<Int> cc;
          for (Int i = 0; i < N; ++i) cc.push_back(c[i]);
          s.addElement(vt, cc);
        }
        m = M(s, via == "soupv");
      }
      vf = false;
    } else if (k == "flip") {
      m.flipFace(t.i());
    } else if (k == "val") {
      m.validate();
      vf = false;
    } else if (k == "sort") {
      m.mortonSort();
    } else if (k == "sortv") {
      m.mortonSortVertices();
      vf = false;
    } else if (k == "sortf") {
      m.mortonSortFaces();
      vf = false;
    } else if (k == "vf") {
      m.populateVF();
      vf = true;
    } else if (k == "soup") {
      PolytopeSoup const s = m;
      auto const types = s.getElemTypes();
      o.raw("t", arr(types, [&](VTKElemType x) { return std::to_string(x == vt ? static_cast<int>(N) : -1); }));
      o.raw("sv", arrn(s.numVertices(), [&](long long i) {
              auto const & p = s.getVertex(static_cast<Int>(i));
              return pt({p[0], p[1]});
            }));
      o.raw("se", arrn(s.numElements(), [&](long long i) {
              VTKElemType et = VTKElemType::Invalid;
              um2::Vector<Int> c;
              s.getElement(static_cast<Int>(i), et, c);
              return ints(c);
            }));
      o.raw("n", mesh(M(s, false)));
    } else if (k == "get") {
      Int const i = t.i();
      auto const f = m.getFace(i);
      o.raw("p", arrn(N, [&](long long j) { return pt(f[static_cast<Int>(j)]); }));
      o.raw("e", arrn(um2::polygonNumEdges<P, N>(), [&](long long j) {
              auto const e = m.getEdge(i, static_cast<Int>(j));
              return arrn(P + 1, [&](long long q) { return pt(e[static_cast<Int>(q)]); });
            }));
      o.raw("ec", arrn(um2::polygonNumEdges<P, N>(), [&](long long j) { return ints(m.getEdgeConn(i, static_cast<Int>(j))); }));
    } else if (k == "loc") {
      double const x = t.d() / U, y = t.d() / U;
      ret = m.faceContaining({x, y});
    } else if (k == "ray") {
      double const x = t.d() / U, y = t.d() / U, dx = t.d(), dy = t.d(), hh = t.d();
      um2::Ray2F const ray({x, y}, {dx / hh, dy / hh});
      size_t const cap_n = static_cast<size_t>(m.numFaces()) * N * 2 + 16;
      std::vector<Float> c(cap_n), u(cap_n), sc(cap_n);
      std::vector<Int> of(cap_n), f(cap_n), so(cap_n), sf(cap_n), pm(cap_n);
      auto const hf = m.intersect(ray, c.data(), of.data(), f.data());
      Int const n = m.intersect(ray, u.data());
      um2::sortRayMeshIntersections(c.data(), of.data(), f.data(), sc.data(), so.data(), sf.data(), pm.data(), hf);
      double const S = 1000 * U;
      auto fl = [&](std::vector<Float> const & a, Int q) { return arrn(q, [&](long long i) { return sfx(a[static_cast<size_t>(i)], S); }); };
      auto il = [&](std::vector<Int> const & a, Int q) { return arrn(q, [&](long long i) { return std::to_string(a[static_cast<size_t>(i)]); }); };
      o.raw("c", fl(c, hf[0])).raw("o", il(of, hf[1] + 1)).raw("f", il(f, hf[1])).raw("u", fl(u, n));
      o.raw("sc", fl(sc, hf[0])).raw("so", il(so, hf[1] + 1)).raw("sf", il(sf, hf[1]));
    }
    o.raw("m", mesh(m)).i("ret", ret).i("err", errs());
    if (vf)
      o.raw("vf", arrn(m.numVertices(), [&](long long i) {
              auto const & off = m.vertexFaceOffsets();
              auto const & fc = m.vertexFaceConn();
              std::string s = "[";
              if (i + 1 >= off.size()) return std::string("[-1]");
              for (Int j = off[static_cast<Int>(i)]; j < off[static_cast<Int>(i) + 1] && j < fc.size(); ++j)
                s += (s.size() > 1 ? "," : "") + std::to_string(fc[j]);
              return s + "]";
            }));
  }
  std::string
  step(Tok & t)
  {
    std::string const k = t.w();
    if (k == "new" || k == "build") ty = t.i();
    Obj o;
    on([&](auto & m) { run(k, t, o, m); });
    return o.done();
  }
};

int
main(int argc, char ** argv)
{
  return drive<B>(argc, argv);
}
