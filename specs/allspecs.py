import base
import matrix
import linalg
import cons
import ddg, dfs
import stmts
import deps, program, remap, iss, ilp, tile, elim, simplify, fm, farkas, islc, update, dims, dups


def specs():
    return base.SPECS

