// Stand-in for the parts of ifopt (absent from this sandbox) that gsplines uses: same names, same
// contracts (component tree, variable linking, Jacobian assembly). The solver is replaced by a hook, so
// that a harness can enumerate everything a solver may do.
#pragma once
#include <Eigen/Core>
#include <Eigen/Sparse>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace ifopt {
struct Bounds {
  Bounds(double lower = 0.0, double upper = 0.0) : lower_(lower), upper_(upper) {}
  double lower_, upper_;
};
static const double inf = 1.0e20;
static const Bounds NoBound = Bounds(-inf, +inf);
static const Bounds BoundZero = Bounds(0.0, 0.0);

class Component {
public:
  using Ptr = std::shared_ptr<Component>;
  using Jacobian = Eigen::SparseMatrix<double, Eigen::RowMajor>;
  using VectorXd = Eigen::VectorXd;
  using VecBound = std::vector<Bounds>;
  Component(int num_rows, const std::string &name) : num_rows_(num_rows), name_(name) {}
  virtual ~Component() = default;
  virtual VectorXd GetValues() const = 0;
  virtual VecBound GetBounds() const = 0;
  virtual void SetVariables(const VectorXd &x) = 0;
  virtual Jacobian GetJacobian() const = 0;
  int GetRows() const { return num_rows_; }
  std::string GetName() const { return name_; }
  void SetRows(int num_rows) { num_rows_ = num_rows; }
  static const int kSpecifyLater = -1;

private:
  int num_rows_ = kSpecifyLater;
  std::string name_;
};
class Composite : public Component {
public:
  using Ptr = std::shared_ptr<Composite>;
  using ComponentVec = std::vector<Component::Ptr>;
  Composite(const std::string &name, bool is_cost) : Component(0, name), is_cost_(is_cost) {}
  const Component::Ptr GetComponent(std::string name) const {
    for (const auto &c : components_)
      if (c->GetName() == name) return c;
    throw std::logic_error("no component " + name);
  }
  template <typename T> std::shared_ptr<T> GetComponent(const std::string &name) const {
    return std::dynamic_pointer_cast<T>(GetComponent(name));
  }
  const ComponentVec GetComponents() const { return components_; }
  void AddComponent(const Component::Ptr &c) {
    components_.push_back(c);
    SetRows(is_cost_ ? 1 : GetRows() + c->GetRows());
  }
  void ClearComponents() {
    components_.clear();
    SetRows(0);
  }
  VectorXd GetValues() const override {
    VectorXd g = VectorXd::Zero(GetRows());
    int row = 0;
    for (const auto &c : components_) {
      int n = c->GetRows();
      VectorXd v = c->GetValues();
      g.middleRows(row, n) += v;
      if (!is_cost_) row += n;
    }
    return g;
  }
  VecBound GetBounds() const override {
    VecBound b;
    for (const auto &c : components_) {
      VecBound v = c->GetBounds();
      b.insert(b.end(), v.begin(), v.end());
    }
    return b;
  }
  void SetVariables(const VectorXd &x) override {
    int row = 0;
    for (auto &c : components_) {
      int n = c->GetRows();
      c->SetVariables(x.middleRows(row, n));
      row += n;
    }
  }
  Jacobian GetJacobian() const override {
    Jacobian jac(GetRows(), components_.empty() ? 0 : components_.front()->GetJacobian().cols());
    int row = 0;
    std::vector<Eigen::Triplet<double>> t;
    for (const auto &c : components_) {
      const Jacobian j = c->GetJacobian();
      for (int k = 0; k < j.outerSize(); ++k)
        for (Jacobian::InnerIterator it(j, k); it; ++it) t.push_back({(int)(row + it.row()), (int)it.col(), it.value()});
      if (!is_cost_) row += c->GetRows();
    }
    jac.setFromTriplets(t.begin(), t.end());
    return jac;
  }

private:
  ComponentVec components_;
  bool is_cost_;
};
class VariableSet : public Component {
public:
  VariableSet(int n_var, const std::string &name) : Component(n_var, name) {}
  Jacobian GetJacobian() const final { throw std::runtime_error("not implemented for variables"); }
};
class ConstraintSet : public Component {
public:
  using VariablesPtr = Composite::Ptr;
  ConstraintSet(int n_constraints, const std::string &name) : Component(n_constraints, name) {}
  void LinkWithVariables(const VariablesPtr &x) {
    variables_ = x;
    InitVariableDependedQuantities(x);
  }
  Jacobian GetJacobian() const final {
    Jacobian jacobian(GetRows(), variables_->GetRows());
    int col = 0;
    std::vector<Eigen::Triplet<double>> t;
    for (const auto &vars : variables_->GetComponents()) {
      int n = vars->GetRows();
      Jacobian jac(GetRows(), n);
      FillJacobianBlock(vars->GetName(), jac);
      if (jac.rows() != GetRows() || jac.cols() != n) throw std::logic_error("Jacobian block of the wrong size");
      for (int k = 0; k < jac.outerSize(); ++k)
        for (Jacobian::InnerIterator it(jac, k); it; ++it) t.push_back({(int)it.row(), (int)(col + it.col()), it.value()});
      col += n;
    }
    jacobian.setFromTriplets(t.begin(), t.end());
    return jacobian;
  }
  virtual void FillJacobianBlock(std::string var_set, Jacobian &jac_block) const = 0;

protected:
  const VariablesPtr GetVariables() const { return variables_; }

private:
  VariablesPtr variables_;
  virtual void InitVariableDependedQuantities(const VariablesPtr &) {}
  void SetVariables(const VectorXd &) final {}
};
class CostTerm : public ConstraintSet {
public:
  CostTerm(const std::string &name) : ConstraintSet(1, name) {}

private:
  virtual double GetCost() const = 0;

public:
  VectorXd GetValues() const final {
    VectorXd cost(1);
    cost(0) = GetCost();
    return cost;
  }
  VecBound GetBounds() const final { return VecBound(GetRows(), NoBound); }
};
class Problem {
public:
  using VecBound = Component::VecBound;
  using Jacobian = Component::Jacobian;
  using VectorXd = Component::VectorXd;
  Problem() : variables_(std::make_shared<Composite>("variable-sets", false)), constraints_("constraint-sets", false), costs_("cost-terms", true) {}
  virtual ~Problem() = default;
  void AddVariableSet(std::shared_ptr<VariableSet> s) { variables_->AddComponent(s); }
  void AddConstraintSet(std::shared_ptr<ConstraintSet> s) {
    s->LinkWithVariables(variables_);
    constraints_.AddComponent(s);
  }
  void AddCostSet(std::shared_ptr<CostTerm> s) {
    s->LinkWithVariables(variables_);
    costs_.AddComponent(s);
  }
  int GetNumberOfOptimizationVariables() const { return variables_->GetRows(); }
  VecBound GetBoundsOnOptimizationVariables() const { return variables_->GetBounds(); }
  VectorXd GetVariableValues() const { return variables_->GetValues(); }
  void SetVariables(const double *x) { variables_->SetVariables(Eigen::Map<const VectorXd>(x, GetNumberOfOptimizationVariables())); }
  bool HasCostTerms() const { return costs_.GetRows() > 0; }
  double EvaluateCostFunction(const double *x) {
    VectorXd g = VectorXd::Zero(1);
    if (HasCostTerms()) {
      SetVariables(x);
      g = costs_.GetValues();
    }
    return g(0);
  }
  VectorXd EvaluateCostFunctionGradient(const double *x) {
    Jacobian jac(1, GetNumberOfOptimizationVariables());
    if (HasCostTerms()) {
      SetVariables(x);
      jac = costs_.GetJacobian();
    }
    return jac.row(0).transpose();
  }
  int GetNumberOfConstraints() const { return constraints_.GetRows(); }
  VecBound GetBoundsOnConstraints() const { return constraints_.GetBounds(); }
  VectorXd EvaluateConstraints(const double *x) {
    SetVariables(x);
    return constraints_.GetValues();
  }
  Jacobian GetJacobianOfConstraints() const { return constraints_.GetJacobian(); }
  Jacobian GetJacobianOfCosts() const { return costs_.GetJacobian(); }
  const Composite &GetConstraints() const { return constraints_; }
  const Composite &GetCosts() const { return costs_; }
  Composite::Ptr GetOptVariables() const { return variables_; }
  void SetOptVariables(int) {}
  void SetOptVariablesFinal() {}
  void PrintCurrent() const {}

private:
  Composite::Ptr variables_;
  Composite constraints_, costs_;
};
class Solver {
public:
  virtual ~Solver() = default;
  virtual void Solve(Problem &nlp) = 0;
  int GetReturnStatus() const { return return_status_; }

protected:
  int return_status_ = 1;
};
// what the harness sees of the options handed over, in order
struct Options {
  std::map<std::string, std::string> s;
  std::map<std::string, int> i;
  std::map<std::string, double> d;
};
class IpoptSolver : public Solver {
public:
  using Ptr = std::shared_ptr<IpoptSolver>;
  static std::function<int(Problem &, const Options &)> &hook() {
    static std::function<int(Problem &, const Options &)> h;
    return h;
  }
  void Solve(Problem &nlp) override { return_status_ = hook()(nlp, options_); }
  void SetOption(const std::string &name, const std::string &value) { options_.s[name] = value; }
  void SetOption(const std::string &name, int value) { options_.i[name] = value; }
  void SetOption(const std::string &name, double value) { options_.d[name] = value; }
  double GetTotalWallclockTime() { return 0; }

private:
  Options options_;
};
} // namespace ifopt
