'''Attributes Graphviz documents for graphs that GiMPy recognises (frozen copy).'''
GRAPH_ATTRIBUTES = frozenset('''
Damping K URL aspect bb bgcolor center charset clusterrank colorscheme
comment compound concentrate d2tgraphstyle defaultdist dim dimen
diredgeconstraints dpi epsilon esep fontcolor fontname fontnames fontpath
fontsize id label labeljust labelloc landscape layers layersep layout levels
levelsgap lheight lp lwidth margin maxiter mclimit mindist mode model mosek
nodesep nojustify normalize nslimit nslimit1 ordering orientation
outputorder overlap overlap_scaling pack packmode pad page pagedir quadtree
quantum rank rankdir ranksep ratio remincross repulsiveforce resolution root
rotate searchsize sep showboxes size smoothing sortv splines start
stylesheet target truecolor viewport voro_margin
'''.split())
