"""Reference tag lists: the elements of leptos' `tachys::svg` and
`tachys::mathml` that are not also HTML elements (`tachys::html`), written
from tachys 0.1.9; `use` is spelled `use` or `use_`."""
SVG = frozenset("""
animate
animateMotion
animateTransform
circle
clipPath
defs
desc
discard
ellipse
feBlend
feColorMatrix
feComponentTransfer
feComposite
feConvolveMatrix
feDiffuseLighting
feDisplacementMap
feDistantLight
feDropShadow
feFlood
feFuncA
feFuncB
feFuncG
feFuncR
feGaussianBlur
feImage
feMerge
feMergeNode
feMorphology
feOffset
fePointLight
feSpecularLighting
feSpotLight
feTile
feTurbulence
filter
foreignObject
g
hatch
hatchpath
image
line
linearGradient
marker
mask
metadata
mpath
path
pattern
polygon
polyline
radialGradient
rect
set
stop
svg
switch
symbol
text
textPath
tspan
use
use_
view
""".split())
MATH = frozenset("""
annotation
maction
math
menclose
merror
mfenced
mfrac
mi
mmultiscripts
mn
mo
mover
mpadded
mphantom
mprescripts
mroot
mrow
ms
mspace
msqrt
mstyle
msub
msubsup
msup
mtable
mtd
mtext
mtr
munder
munderover
semantics
""".split())
