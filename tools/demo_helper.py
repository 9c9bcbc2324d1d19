

# --------------------------------------------------------------------------- a small pipeline for demonstrations

def scene(root, seed=1, n=5, lon0=200.3, lat0=-20.4, casts=220, nlev=24, pmax=1500, drift=None, name="4900123", topo=None, spread=(8, 5),
          p_type=(0.3, 0.2, 0.5), own_frac=0.1, table=None, gaps=True, **over):
    """a world with one float, written to root"""
    rng = np.random.default_rng(seed)
    tp = os.path.join(root, "tbase.int")
    os.makedirs(root, exist_ok=True)
    if not os.path.exists(tp):
        write_topo(tp, make_topo("smooth", 3))
    w = World(os.path.join(root, "w"), topo_path=tp, table=table, **over)
    water = Water(rng)
    lon, lat, t = track(rng, n, lon0, lat0)
    surround(rng, w, water, lon0, lat0, casts, spread=spread, own=name, own_frac=own_frac, p_type=p_type)
    w.write_climatology()
    fl = make_float(rng, water, lon, lat, t, nlev=nlev, pmax=pmax, drift=drift, gaps=gaps)
    w.write_float(name, fl)
    return w, name, fl, water
