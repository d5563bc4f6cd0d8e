CONSTANTS Pairs = {1}
          NameOf <- NameV
          KindOf <- KindV
          Docs <- DocsV
          Vals = {1, 2}
          Engines = {1}
          IVs = {1}
          Judge = {0, 1, 2, 3}
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
