import json
F=[("C05","c008124","elements of regions with equal but distinct material objects (copied, shifted, unpickled geometries) were in no material group: stresses of these elements were lost"),
("C04","d1a9bc2","CompoundGeometry.offset_perimeter(0) returned the very same object instead of a new geometry"),
("C08","ad06d6c","solutions that are not finite, and a Lagrange multiplier violated in the negative direction, were accepted"),
("C06","a40e8e2","the process-wide pardiso solver was used from several threads at once; results of other matrices or crashes"),
("C02","a40e8e2","an interrupt inside pardiso left a stale factorisation that a later analysis with the same matrix used"),
("C09","905d7de","a plot that failed left its figure open"),
("C14","8ab7f3b","warping analysis and fibre export of a section used the mesh the geometry has now, not the one the section was created with"),
("C03","2eb7cb3","a failed or interrupted analysis left partial results that the queries returned"),
("C07","2eb7cb3","readers could see intermediate results while another thread repeated an analysis"),
("C05","b827ec9","CompoundGeometry.mirror_section about the centre mirrored every region about its own centre; assigned control points were not mirrored with the default mirror point"),
("C10","5891be9","a material_mapping name that occurs elsewhere in the text of a fibre section was replaced there too"),
("C11","9b9c428","a read error in the middle of a 3dm file gave a partial geometry instead of an error"),
("C11","7b4b0c4","an imported circle had a repeated point and crashed the process when meshed"),
("C09","9d11f2a","a plot on axes of another figure re-laid out the current figure, or opened a new empty figure"),
("C17","edf6181","the caches of the shape functions had no bound: every new section analysed in a process added about 14 kB per element for good"),
("C13","ec8e17a","the public function fea.point_above_line failed in an installation with numba (np.cross of 2D vectors) and worked without it"),
]
json.dump({"findings":[],"fixed":[f"fixed: property={p} {c} {w}" for p,c,w in F]},open("/verif/known_findings.json","w"),indent=1)
