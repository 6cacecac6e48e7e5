"""Which package functions each property rests on (patterns over the names of the
reference models; a property lists the operations it talks about and the helpers that are
part of the same guarantee)."""
import fnmatch

COLOR_ADJ = '''gammacorrectbyte gammacorrect brightnessadjust thresholdadjust colorfilter monochrome
 apply*BGRbuf *filtertoBGRbuf gammaBGRbuf invertbitsinbuffer colormix setminmax intsetminmax setminmaxvec intsetminmaxvec setmin setmax setmaxvec
 intscalarmulvect RGBpalbrightnessadjust monochromepal addvect scalarmulvect setBMP2monochrome RGBfactorstoBaseandRange range2baseanddelta'''

G = {
 'c01': [('BITMAPlib', 'plot*xybit* get*xybit* plotvecxypoint intplotvecxypoint plotxypointlist isinBMPrectbnd *bmof* _getBMof* _BMoffset* _xbytes _xchrcnt')],
 'c02': [('BITMAPlib', 'newBMP _setmeta _bmmeta _getbmflsz _xbytes _flsz _setflsz getmax* bottomrightcoord centercoord copyBMPhdr CopyBMPxydim2newBMP _set*hdr* _get*hdr* getBMPimgbytes setBMPimgbytes'),
         ('inttools', '*')],
 'c10': [('BITMAPlib', '*pal palshift setbmppal* *defaultbitpal copyRGBpal setBMP2*pal setBMP2mono* isdefaultpal newBMPwithPAL setnewpalfromsourcebmp !*2file !plot*'), ('colors', '*pal *pal2* getdefaultlumrange RGBfactors*')],
 'c12': [('colors', 'int2* RGB2* makeBGRbuf *BGRlist *BGRAlist'), ('bufferflip', '*'), ('buffersplit', '*'), ('bufresize', '*'), ('inttools', '*'), ('mathlib', 'rotatebits enumbits buf2int')],
 'c03': [('BITMAPlib', '''plotxybit plotRGBxybit intplotvecxypoint plotvecxypoint plotRGBxybitvec plotxypointlist roundpen swapcolors line horiline
   vertline filledrect rectangle linevec intlinevec circle circlevec filledcircle ellipse filledellipse filledparallelogram BMPbitBLTput BMPbitBLTget vertBMPbitBLTget
   _fnwithpar2vertslice drawvec thickroundline thickcircle squircle thickellipserot thickencirclearea drawarc fillboundary plotpoly plotpolyfill plotlines plotpolylist
   plotpolyfillist thickplotpoly isinBMPrectbnd listinBMPrecbnd beziercurve bspline fillbackgroundwithgrad filledgradrect filleddichromaticgradrect fillbackgroundwithdichromaticgrad
   gradcircle graddichromiccircle gradellipse gradthickcircle gradthickroundline gradthickellipserot gradthickplotpoly gradplotlines orb sphere gradvert xygrid xygridvec rectangle plotflower plotfilledflower outline*'''),
   ('primitives2D', 'isinrectbnd listinrecbnd entirecircleisinboundary entireellipseisinboundary itercirclepartlineedge itercirclepartvertlineedge itercirclepart iterellipsepart iterline sortrecpoints itercircle iterellipse'),
   ('mathlib', 'isinrange setmin setmax mirror mirror1stquad'), ('conditionaltools', '*')],
 'c05': [('BITMAPlib', '''*2file cropBMPandsave* colorcycle2dir imagecomp imagediff showsimilarparts palshift2file pixelizenxntofile reduce24bitimagebits
   _useby* _use24* _usefn* _useclr* _usenoparclr* rectangle2file gammaadjtoregion2file !save* !plot*'''),
   ('fileutils', '*')],
 'c11': [('colors', COLOR_ADJ), ('mathlib', COLOR_ADJ), ('BITMAPlib', 'RGBpalbrightnessadjust setBMP2monochrome setBMP2invshiftedmonochrome setBMP2dichromaticpal *adjto24bit* *filterto24bit* brightnesseadj* thresholdadj* gamma*to24* gammacorrectcircregion brightnessadjcircregion colorfiltercircregion monocircle invert* *brightnessgrad* !*2file')],
 'c13': [('BITMAPlib', '''plotmultifractal* plotattractor* save*2file newtonsfractal mandelbrot multi* *fractal *julia tricorn barnsleytree marekdragon IFS fern fern2file *attractor
   newBMPwithPAL savefractal* savemultifractal2file julia lambdafractal plotflower plotfilledflower'''),
   ('fractals', '*'), ('mathlib', 'newtonmethod tetration getcomplexdomainbounds getdomainbounds initmatrix histogram2D histogram2Dcomplex ravel2D')],
 'c15': [('BITMAPlib', 'plot*string* plot*8bitpattern* plotcircinsqr plotbmpastext'), ('chartools', '*'), ('textgraphics', '*'), ('fonts', '*'), ('mathlib', 'enumbits')],
 'c16': [('BITMAPlib', 'flip* mirror* verttrans* horizontalbulkswap horitransformincircregion verttransformincircregion _usenoparfn2circreg !*2file'),
         ('bufferflip', '*'), ('mathlib', 'swapxy mirror rotatebits')],
 'c18': [('mathlib', '*'), ('solids3D', 'rotvec3D perspective'), ('inttools', 'writeint readint')],
 'c19': [('primitives2D', '*'), ('mathlib', 'mirror mirror1stquad roundvect* centerpoint computerotvec rotvec2D dist trans swapxy addvect* polar*'),
         ('solids3D', 'fillpolydata polyboundary gensides spherevert *surface zlevelcoords genspheresurfaces *vert'), ('fractals', 'hilbertvert koch*')],
 'c21': [('BITMAPlib', 'loadBMP saveBMP _flsz _setflsz newBMP ensurePaintWrapperInPath'), ('chartools', 'char2int'), ('fileutils', '*'), ('inttools', '*')],
 'c22': [('BITMAPlib', '''itercopyrect copyrect pasterect convertselection2BMP copycircregion* pastecirularbuf crop *region *circreg *circregion *24bitimage *24bitregion
    verttrans* horizontalbulkswap flip* mirror* invert* erase* _usenopar* _use24btfn2circreg _usebyref* _use24bitfn2reg _fnwithpar2vertslice monocircle
    outline* pixelize* resizeN* magnify* vertbrightness* horibrightness* *brightnessgrad* gammaadj* upgradeto24bitimage convertbufto24bit reduce* adjustcolordicttopal
    BMPbitBLTput BMPbitBLTget vertBMPbitBLTget getBMPimgbytes setBMPimgbytes thickencirclearea _getBM* _BMoffset* *bmof* !*2file'''),
    ('bufresize', '*'), ('colors', '*BGRbuf invertbitsinbuffer'), ('primitives2D', 'itercirclepartlineedge itercirclepartvertlineedge sortrecpoints entirecircleisinboundary rectboundarycoords recvert')],
 'c23': [('mspaint', '*')],
 'c24': [('BITMAPlib', '''iterimage* imageregion* itergetcolor* itercopyrect colorhistogram makenewpalfromcolorhist getneighborcolorlist getimage* plotimgedges iterimagedgevert _cmpimglines
    imagecomp imagediff showsimilarparts imgregionbyRGB2file isdefaultpal getmaxcolors getBGRpalbuf autocropimg2file itercolorcycle colorcycle2dir plotbmpastext setnewpalfromsourcebmp'''),
    ('primitives2D', 'itergetneighbors getneighborlist rectboundarycoords'), ('dicttools', '*'), ('textgraphics', '*')],
 'c25': [('BITMAPlib', '''plot3d plot3Dsolid XYaxis xygrid* numbervert vertlinevert horilinevert userdef2Dcooordsys2screenxy XYscatterplot piechart gradvert
    filled*grad* fillbackground* grad* orb sphere*'''), ('charts', '*'), ('solids3D', '*'), ('colordict', '*'), ('X11colordict', '*'), ('XKCDcolordict', '*'),
    ('colors', '*pal monochromepal dichromaticpal RGB2HSL interpolateRGB matchRGB* RGBtoRGBfactorsandlum RGBfactors* colormix probplot*'), ('funcmeta', '*'), ('proctimer', '*')],
}


def members(M, group):
    out = []
    for mod, pats in G[group]:
        ps = pats.split()
        names = [n for (m, n) in M.fn if m == mod]
        for p in ps:
            if p.startswith('!'):
                continue
            hit = [n for n in names if fnmatch.fnmatchcase(n, p)]
            out += [(mod, n) for n in hit]
        neg = [p[1:] for p in ps if p.startswith('!')]
        out = [k for k in out if k[0] != mod or not any(fnmatch.fnmatchcase(k[1], p) for p in neg)]
    seen = []
    for k in out:
        if k not in seen:
            seen.append(k)
    return seen
