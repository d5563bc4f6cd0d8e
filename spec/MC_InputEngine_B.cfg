CONSTANTS Pairs = {1, 2}
          NameOf <- NameB
          KindOf <- KindB
          Docs <- DocsB
          Vals = {1, 2}
          Engines = {1}
          IVs = {}
          Judge = {0, 1, 2, 3}
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK FailedAreTargets
PROPERTIES Precedence Repeatable ReadOnly ReadPure Frame Cleared ReadThrows HandedOut Agree VerdictKept
