import glob, json, os
V='/tmp/dv/'
rows=[]
for d in sorted(glob.glob(V+'seeded/*/meta.json')):
    m=json.load(open(d)); rows.append((os.path.basename(os.path.dirname(d)), m['property'], m['needs']))
s='''## Planted bugs

Each is in seeded/ with a demonstration, and was confirmed by `tools/dev/seed.py` (the demonstration passes without and fails with it; the stable tests pass
with it). All are caught by the quick check of their property, named in the second column. Textual mutations of every function of a property
(`tools/dev/mut.py`, about 15 to 40 per property) were run besides; those that were missed led to stronger checks or were equivalent to the code.

| planted bug | caught by | needs |
|---|---|---|
'''+''.join(f'| {a} | {b} | {c} |\n' for a,b,c in rows)
open(V+'tools/design/95.md','w').write(s)
p=V+'tools/design/90.md'; s=open(p).read()
ex='''* Rasters: `array=None` after resizing or cropping one backed by a file; crop edges with cell sizes that are not dyadic; `RasterInterpolant` of cells that are not
  square, of one raster with extrapolation, and the crs it loses; samples at cell centers next to missing cells; axes of `.img` (HFA) files that are reversed; points exactly on cell
  borders or edges of polygons; viewsheds from outside the raster; horizon headings that touch cell borders, ties of lines of cells, and loop closure of partial ranges.
* Cameras: `resize(force)` with sizes that are not integer, sizes that are neither exactly proportional nor clearly disjoint, layout of `Rprime`, removal of strong distortion,
  and the half pixel between keypoints of OpenCV and image coordinates.
* Optimization: errors exactly at the limit of `ransac`, fits that start exactly on a bound, BFGS of observer cameras that does not converge, zero limits of `Matches.filter` (0 = none),
  `RotationMatches.resize` and `RotationMatchesXYZ.observed` (unsupported), world lines that cross the view between two consecutive vertices out of view, converting stale rotation
  matches, and keypoints matched where an image has fewer than two.
* Tracks: start point of `plot_xy` where the first time is undefined, text positions, colour limits of missing weights, and animations of at most one frame.
* Conversions: six free radial coefficients may diverge, empty requests, uppercase exponents in OpenCV XML, malformed SVG paths, images within `defs`.
* Lines: nominal spacing (dx) that does not divide the length; missing bounds of boxes.
* Metadata: text beyond ASCII, malformed dates and subseconds, trailing blanks, Interop without Exif, formats without metadata.
* Plots: start of converter arrows (pinned by an existing test) and their scale, precedence of keywords in `Polynomial.plot`, order of the x of its curve, and `image.origin` in matplotlib's settings.
* Filters: constant arrays in `normalize`, missing values in included cells, even windows and other edge modes, means of integers without a mask (rounded by scipy), dot files.
'''
if 'Filters: constant' not in s:
    open(p,'w').write(s.rstrip('\n')+'\n'+ex)
