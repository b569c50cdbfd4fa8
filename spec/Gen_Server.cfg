CONSTANTS Clients = {c1, c2, c3, c4, c5}
          Versions = {v1, v2, v3}
          Buffer = 2
          MaxOps = 14
CONSTANT SizeOf <- Sizes
SPECIFICATION GSpec
