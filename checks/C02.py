import vf
import tp_common


def main():
    c = vf.Check("C02", "model_checking",
                 "all schedules within the preemption (P) / delay bound and data deviations (D) of each listed scenario of the real ThreadPool")
    c.assumptions = ["compiled code at -O1 behaves like the source under the explored schedules",
                     "tasks do not themselves use the pool"]
    tp_common.run(c, 2 | 8 | 16 | 32, stale=False)
    c.finish()
