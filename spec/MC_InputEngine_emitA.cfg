CONSTANTS Pairs = {1, 2}
          NameOf <- NameA
          KindOf <- KindA
          Docs <- DocsA
          Vals = {1, 2}
          Engines = {1}
          IVs = {}
          Judge = {0, 1, 2, 3}
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
