#include "splinecfg.hpp"
using namespace rs;
// Every basis, window position, interval length and order against the definitions.
static std::vector<int> ids;
static std::vector<R> windows(const BSpec &b) {
  std::vector<R> w{-1, -0.987, -0.61, -0.25, 0, 0.125, 0.333, 0.72, 0.991, 1};
  if (b.kind == LAGRANGE || b.kind == GL)
    for (double x : b.nodes) {
      w.push_back((R)x);
      // beside a node, at every scale that is still distinguishable from the node
      for (double e : {3e-3, 3e-4, 3e-5, 3e-6, 3e-7, 3e-8}) w.push_back((R)(double)(x + e)), w.push_back((R)(double)(x - e));
      w.push_back((R)(double)(x + 1e-12));
    }
  return w;
}
static std::vector<double> taus(bool full) {
  return full ? std::vector<double>{0.05, 0.1, 0.5, 1, 1.7, 2, 3.3, 8, 20} : std::vector<double>{0.1, 0.5, 1, 2, 3.3, 8};
}
// largest magnitude of derivative d over the window (scale of rounding errors), operator growth included
static R growth(const Basis &b, R tau, int d) {
  if (b.s.poly()) {
    R sep = 2;
    if (b.s.kind != LEGENDRE)
      for (size_t i = 0; i < b.s.nodes.size(); i++)
        for (size_t j = 0; j < i; j++) sep = std::min<R>(sep, fabs(b.s.nodes[i] - b.s.nodes[j]));
    R per = b.s.kind == LEGENDRE ? (R)b.dim() * b.dim() / 2 : std::max<R>(b.dim() * b.dim() / 2.0, 4 / sep);
    return powl(per * 2 / tau, d);
  }
  return powl(2 * sqrtl(2.0L) * b.s.k(), d) * expl(tau * b.s.k());
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, [](mc::Registry &R_) {
    ids = base_ids(true);
    static std::vector<double> T = taus(mc::THOROUGH);
    R_.add("evaluation", ids.size() * T.size(), [](mc::Ctx &c, uint64_t id) {
      const Basis &b = baselib()[ids[id / T.size()]];
      double tau = T[id % T.size()];
      auto lb = make(b.s);
      if (!c.check((int)lb->get_dim() == b.dim(), "dim", "wrong dimension")) return;
      int top = b.dim() + 2;
      if (b.s.kind == B0101) top = 8;
      for (R s : windows(b.s)) {
        for (int d = 0; d <= top; d++) {
          c.note("%s tau=%g s=%.12Lg order=%d", b.s.str().c_str(), tau, s, d);
          c.trans();
          c.state(mc::hstr(c.get_note()));
          V w = b.eval(s, tau, d), wt = b.eval_dtau(s, tau, d);
          R sc = 1e-3L + growth(b, tau, d), scalet = (d + 1) * sc / tau * (1 + (b.s.poly() ? 0 : tau * b.s.k()));
          Eigen::VectorXd v = Eigen::VectorXd::Constant(b.dim(), 3.5), vt = v;
          lb->eval_derivative_on_window((double)s, tau, d, v);
          lb->eval_derivative_wrt_tau_on_window((double)s, tau, d, vt);
          for (int i = 0; i < b.dim(); i++) {
            if (!c.close(v(i), w[i], 1e-9L, "derivative", mc::fmt("basis function %d", i), sc)) return;
            if (!c.close(vt(i), wt[i], 1e-9L, "tau-derivative", mc::fmt("basis function %d", i), scalet)) return;
          }
          if (d == 0) {
            Eigen::VectorXd u = Eigen::VectorXd::Constant(b.dim(), -9);
            lb->eval_on_window((double)s, tau, u);
            for (int i = 0; i < b.dim(); i++)
              if (!c.close(u(i), w[i], 1e-9L, "value", mc::fmt("basis function %d", i), sc)) return;
            // strided destination (a row of a column-major matrix)
            Eigen::MatrixXd M = Eigen::MatrixXd::Constant(3, b.dim(), 1.25);
            lb->eval_on_window((double)s, tau, M.row(1));
            for (int i = 0; i < b.dim(); i++)
              if (!c.close(M(1, i), w[i], 1e-9L, "value-strided", mc::fmt("basis function %d", i), sc) || !c.check(M(0, i) == 1.25 && M(2, i) == 1.25, "value-strided", "wrote outside the buffer")) return;
          }
          Eigen::MatrixXd M = Eigen::MatrixXd::Constant(3, b.dim(), 1.25);
          lb->eval_derivative_on_window((double)s, tau, d, M.row(1));
          for (int i = 0; i < b.dim(); i++)
            if (!c.close(M(1, i), w[i], 1e-9L, "derivative-strided", mc::fmt("basis function %d", i), sc) || !c.check(M(0, i) == 1.25 && M(2, i) == 1.25, "derivative-strided", "wrote outside the buffer")) return;
          c.trace();
        }
      }
      if (id % 37 == 5) c.sample(c.get_note());
    });
    // Gram matrices and their tau-derivatives, accumulated into a non-zero matrix
    R_.add("gram", ids.size() * T.size(), [](mc::Ctx &c, uint64_t id) {
      const Basis &b = baselib()[ids[id / T.size()]];
      double tau = T[id % T.size()];
      auto lb = make(b.s);
      for (int copy = 0; copy < 3; copy++) {
        if (copy == 1) lb = lb->clone();
        if (copy == 2) lb = lb->move_clone();
        for (int d = 0; d <= b.dim() + 2; d++) {
          c.note("%s tau=%g gram order=%d (%s)", b.s.str().c_str(), tau, d, copy == 0 ? "original" : copy == 1 ? "clone" : "move_clone");
          c.trans();
          c.state(mc::hstr(c.get_note()));
          Mat w = b.gram(tau, d), wt = b.gram_dtau(tau, d);
          Eigen::MatrixXd M = Eigen::MatrixXd::Zero(b.dim(), b.dim()), Mt = M;
          bool supported = true, supported_t = true;
          try {
            lb->add_derivative_matrix(tau, d, M);
          } catch (const std::invalid_argument &) {
            supported = false;
          }
          try {
            lb->add_derivative_matrix_deriv_wrt_tau(tau, d, Mt);
          } catch (const std::invalid_argument &) {
            supported_t = false;
          }
          // polynomial bases support every order; 0101 at least what its Sobolev costs use
          if (!c.check(supported || (b.s.kind == B0101 && d > 3), "gram-unsupported", "a supported order was refused")) return;
          if (!c.check(supported_t || (b.s.kind == B0101 && d != 1 && d != 3), "gram-unsupported", "a supported order was refused (tau-derivative)")) return;
          R g = growth(b, tau, d), sc = 1e-3L + g * g * tau;
          if (b.s.kind == B0101) sc = 1e-3L + std::max(w.cwiseAbs().maxCoeff(), g * g);
          R sct = 1e-3L + sc * (2 * d + 1) / tau * (1 + (b.s.poly() ? 0 : tau * b.s.k()));
          for (int i = 0; i < b.dim(); i++)
            for (int j = 0; j < b.dim(); j++) {
              if (supported && !c.close(M(i, j), w(i, j), 1e-9L, "gram", mc::fmt("entry %d,%d", i, j), sc)) return;
              if (supported_t && !c.close(Mt(i, j), wt(i, j), 1e-9L, "gram-dtau", mc::fmt("entry %d,%d", i, j), sct)) return;
            }
          // adds to what is there
          if (supported) {
            Eigen::MatrixXd A = Eigen::MatrixXd::Constant(b.dim(), b.dim(), 2.0);
            lb->add_derivative_matrix(tau, d, A);
            if (!c.check(((A - M).array() - 2.0).abs().maxCoeff() <= 1e-12 * (1 + M.cwiseAbs().maxCoeff()), "gram-accumulate", "the matrix is not added to the given one")) return;
          }
          if (supported_t) {
            Eigen::MatrixXd A = Eigen::MatrixXd::Constant(b.dim(), b.dim(), 2.0);
            lb->add_derivative_matrix_deriv_wrt_tau(tau, d, A);
            if (!c.check(((A - Mt).array() - 2.0).abs().maxCoeff() <= 1e-12 * (1 + Mt.cwiseAbs().maxCoeff()), "gram-accumulate", "the matrix is not added to the given one")) return;
          }
          c.trace();
        }
      }
    });
    // derivative blocks, asked for in every order pattern, on fresh objects and copies
    R_.add("blocks", ids.size(), [](mc::Ctx &c, uint64_t id) {
      const Basis &b = baselib()[ids[id]];
      double tau = 2.0; // the block acts on window derivatives: time derivatives at tau = 2
      int top = b.dim() + 2;
      std::vector<std::vector<int>> orders;
      std::vector<int> up, down, mix;
      for (int d = 0; d <= top; d++) up.push_back(d), down.push_back(top - d), mix.push_back((d * 5 + 3) % (top + 1));
      orders = {up, down, mix, {1, 1, 2, 1, 0, 2}};
      for (size_t o = 0; o < orders.size(); o++) {
        auto lb = make(b.s);
        for (int d : orders[o])
          for (int cp = 0; cp < 3; cp++) {
            c.note("%s block order=%d pattern=%zu copy=%d", b.s.str().c_str(), d, o, cp);
            c.trans();
            c.state(mc::hstr(c.get_note()));
            std::unique_ptr<gsplines::basis::Basis> use;
            Eigen::MatrixXd D;
            if (cp == 0) D = lb->get_derivative_matrix_block(d);
            else if (cp == 1) D = lb->clone()->get_derivative_matrix_block(d);
            else {
              auto x = lb->clone();
              D = x->move_clone()->get_derivative_matrix_block(d);
            }
            if (!c.check(D.rows() == b.dim() && D.cols() == b.dim(), "block", "wrong size")) return;
            // sum_j D(j,i) e_j(s) = (d/ds)^d e_i(s)
            for (R s : {-1.0L, -0.4L, 0.15L, 0.8L, 1.0L}) {
              V v = b.eval(s, tau, 0), w = b.eval(s, tau, d);
              R sc = 1e-3L + growth(b, tau, d);
              for (int i = 0; i < b.dim(); i++) {
                R a = 0;
                for (int j = 0; j < b.dim(); j++) a += (R)D(j, i) * v[j];
                if (!c.close(a, w[i], 1e-9L, "block", mc::fmt("derivative of basis function %d at s=%Lg", i, s), sc)) return;
              }
            }
            c.trace();
          }
      }
    });
    // identity: names, parameters, equality, factory
    R_.add("identity", ids.size(), [](mc::Ctx &c, uint64_t id) {
      const Basis &b = baselib()[ids[id]];
      auto lb = make(b.s);
      c.note("%s identity", b.s.str().c_str());
      c.state(mc::hstr(c.get_note()));
      std::shared_ptr<gsplines::basis::Basis> f = gsplines::basis::get_basis(lb->get_name(), lb->get_dim(), lb->get_parameters());
      if (!c.check(f && *f == *lb && *lb == *f && !(*f != *lb) && (int)f->get_dim() == b.dim(), "factory", "get_basis does not give back an equal basis")) return;
      std::vector<double> pv = vec(lb->get_parameters());
      auto f2 = gsplines::basis::get_basis(lb->get_name(), lb->get_dim(), pv);
      if (!c.check(*f2 == *lb, "factory", "get_basis (vector form) does not give back an equal basis")) return;
      for (double s : {-0.7, 0.2, 1.0}) {
        V w = b.eval(s, 1.3L, 0);
        Eigen::VectorXd v(b.dim());
        f->eval_on_window(s, 1.3, v);
        for (int i = 0; i < b.dim(); i++)
          if (!c.close(v(i), w[i], 1e-9L, "factory-value", mc::fmt("function %d", i), 1 + growth(b, 1.3, 0))) return;
      }
      for (size_t j = 0; j < ids.size(); j++) {
        const Basis &o = baselib()[ids[j]];
        bool same = j == id;
        if (!same && o.s.nodes.size() == b.s.nodes.size() && !o.s.nodes.empty()) {
          double dm = 0;
          for (size_t q = 0; q < o.s.nodes.size(); q++) dm = std::max(dm, std::fabs(o.s.nodes[q] - b.s.nodes[q]));
          if (dm < 1e-4) same = true;
        }
        auto ob = make(o.s);
        c.trans();
        c.note("%s against %s", b.s.str().c_str(), o.s.str().c_str());
        if (!c.check((*lb == *ob) == same && (*lb != *ob) == !same, "basis-equality", same ? "equal bases compare different" : "different bases compare equal")) return;
      }
      c.trace();
      bool threw = false;
      try {
        gsplines::basis::get_basis("no-such-basis", 3, std::vector<double>{1.0});
      } catch (const std::invalid_argument &) {
        threw = true;
      }
      c.check(threw, "factory", "an unknown basis name was accepted");
    });
  });
}
