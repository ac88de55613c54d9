"""Solving coupled models under test; a model that does not converge is not a verdict."""
import openmdao.api as om


class NotConverged(Exception):
    pass


def newton(maxiter=40, rtol=1e-12, atol=1e-9, linesearch=True):
    def f(m):
        m.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=maxiter, atol=atol, rtol=rtol, iprint=-1, err_on_non_converge=True)
        m.nonlinear_solver.options["max_sub_solves"] = 50
        if not linesearch:
            m.nonlinear_solver.linesearch = None
        m.linear_solver = om.DirectSolver()
    return f


def solve(p):
    try:
        p.run_model()
    except om.AnalysisError as e:
        raise NotConverged(str(e))
