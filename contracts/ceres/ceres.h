// The part of Ceres that the fitter uses, as a contract: the problem records its residual
// blocks, Solve is given by the unit (it may evaluate them anywhere and find anything).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
namespace ceres {
enum LinearSolverType { DENSE_NORMAL_CHOLESKY, DENSE_QR, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, SPARSE_SCHUR, ITERATIVE_SCHUR, CGNR };
enum TerminationType { CONVERGENCE, NO_CONVERGENCE, FAILURE, USER_SUCCESS, USER_FAILURE };
struct LossFunction { virtual ~LossFunction() {} };
class CostFunction {
 public:
  CostFunction() : n_(0) {} virtual ~CostFunction() {}
  virtual bool Evaluate(double const* const* parameters, double* residuals, double** jacobians) const = 0;
  const std::vector<int32_t>& parameter_block_sizes() const { return sizes_; }
  int num_residuals() const { return n_; }
 protected:
  std::vector<int32_t>* mutable_parameter_block_sizes() { return &sizes_; }
  void set_num_residuals(int n) { n_ = n; }
 private:
  std::vector<int32_t> sizes_; int n_;
};
struct Problem {
  std::vector<CostFunction*> blocks; std::vector<double*> values; bool loss;
  Problem() : loss(false) {} ~Problem() { for (size_t i = 0; i < blocks.size(); ++i) delete blocks[i]; }
  void* AddResidualBlock(CostFunction* c, LossFunction* l, double* x) { blocks.push_back(c); values.push_back(x); if (l) loss = true; return c; }
};
struct Solver {
  struct Options { int max_num_iterations; LinearSolverType linear_solver_type; bool minimizer_progress_to_stdout; double function_tolerance, gradient_tolerance, parameter_tolerance; Options() : max_num_iterations(50), linear_solver_type(SPARSE_NORMAL_CHOLESKY), minimizer_progress_to_stdout(false), function_tolerance(1e-6), gradient_tolerance(1e-10), parameter_tolerance(1e-8) {} };
  struct Summary { TerminationType termination_type; Summary() : termination_type(FAILURE) {} bool IsSolutionUsable() const { return termination_type == CONVERGENCE || termination_type == NO_CONVERGENCE || termination_type == USER_SUCCESS; } std::string BriefReport() const { return std::string(); } std::string FullReport() const { return std::string(); } };
};
void Solve(const Solver::Options& options, Problem* problem, Solver::Summary* summary);
}
