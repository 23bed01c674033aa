P("P06", "Spatial indices answer exactly like a linear search",
  "For any set of points, including repeated, collinear and empty sets, and any query region, a range query of the k-d tree or of the quad-tree returns every point in the region once and no other. The quad-tree keeps answering so after any sequence of additions and removals, and building or changing it always ends.",
  ["inputs", "histories"], "up to 300 points with repeated and lattice coordinates, histories of 200 additions, removals and queries",
  "The existing tests query fixed points; coordinates that coincide, more points than fit a leaf, and queries that only touch a subtree's edge are not sampled.",
  ["SEUtils/SEUtils/KdTree.h", "SEUtils/SEUtils/_impl/KdTree.icpp", "SEUtils/SEUtils/QuadTree.h", "SEUtils/SEUtils/_impl/QuadTree.icpp"],
  [("splitting and range search of the k-d tree", "SEUtils/SEUtils/_impl/KdTree.icpp"), ("subdivision, removal and range search of the quad-tree", "SEUtils/SEUtils/_impl/QuadTree.icpp")],
  """Brute force over the list of points decides. Points come from a coarse lattice (ties), clusters and wide ranges; radii are drawn
both freely and equal to an existing distance. The quad-tree runs as a history with a list as its model. Found and fixed: range
queries dropped subtrees none of whose corners lie in the circle; identical points beyond the capacity of a leaf recursed for ever.""",
  observe=["points returned by the queries"])

P("P07", "Tile order visits every pixel once and coordinates behave as values",
  "The Hilbert curve of every square of side 2^n visits each pixel exactly once, moving by one pixel at a time; sizes are rounded up to the next power of two and never down. Pixel coordinates are equal, ordered, hashed, added and subtracted consistently, and a pixel rectangle's corners, size and containment agree with one another.",
  ["inputs"], "all curve sizes up to 128 (order up to 2^15), all 32-bit sizes for the rounding",
  "The existing tests check one curve size; large orders, where the integer arithmetic could overflow, and the edge sizes are not sampled.",
  ["SEUtils/SEUtils/HilbertCurve.h", "SEUtils/SEUtils/PixelCoordinate.h", "SEUtils/SEUtils/PixelRectangle.h", "SEUtils/SEUtils/Misc.h"],
  [("curve recursion and power of two", "SEUtils/SEUtils/HilbertCurve.h"), ("coordinates and their hash", "SEUtils/SEUtils/PixelCoordinate.h")],
  """Complete enumeration of each generated curve (a bit set of visited pixels, unit steps), sampled indices of curves too large to enumerate,
and algebraic laws for coordinates and rectangles.""",
  observe=["visited pixels, rounded sizes, coordinate arithmetic"])
