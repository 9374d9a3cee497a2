From c008124ea57c14749fdc9c50102b8c305de6717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 01/14] fix: add elements of equal but distinct materials to
 their material group

---
 src/sectionproperties/analysis/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index cee7965..1e32607 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -158,7 +158,7 @@ class Section:
 
             # add element to relevant MaterialGroup
             for group in self.material_groups:
-                if material is group.material:
+                if material == group.material:
                     group.add_element(element=new_element)
                     break
 
-- 
2.43.0


From d1a9bc2ad870309024595707c6519b5fc19031c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 02/14] fix: return a new geometry from a zero offset of a
 compound geometry

---
 src/sectionproperties/pre/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 1b62548..9b78b13 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2391,7 +2391,7 @@ class CompoundGeometry(Geometry):
 
             return compound_dilation(self.geoms, offset=amount)
         else:
-            return self
+            return self.shift_section()
 
     def compile_geometry(self) -> None:
         """Creates geometry data from shapely data.
-- 
2.43.0


From ad06d6c84e88c054cb1ab6877e70f1de79aeb018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 03/14] fix: reject solutions that are not finite or violate
 the Lagrangian constraint

---
 src/sectionproperties/analysis/solver.py | 31 ++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/analysis/solver.py b/src/sectionproperties/analysis/solver.py
index 449c58f..d587a59 100644
--- a/src/sectionproperties/analysis/solver.py
+++ b/src/sectionproperties/analysis/solver.py
@@ -31,6 +31,22 @@ except ImportError:
     sp_solve = spsolve
 
 
+def check_finite(
+    u: npt.NDArray[np.float64],
+) -> None:
+    """Checks that the solution to a linear system of equations is finite.
+
+    Args:
+        u: The solution vector to the linear system of equations
+
+    Raises:
+        RuntimeError: If the solution contains infinite or not a number values
+    """
+    if not np.all(np.isfinite(u)):
+        msg = "The solution to the linear system of equations is not finite."
+        raise RuntimeError(msg)
+
+
 def solve_cgs(
     k: csc_matrix,
     f: npt.NDArray[np.float64],
@@ -57,6 +73,8 @@ def solve_cgs(
         msg = "CGS iterative method did not converge."
         raise RuntimeError(msg)
 
+    check_finite(u)
+
     return u
 
 
@@ -87,8 +105,10 @@ def solve_cgs_lagrange(
         msg = "CGS iterative method did not converge."
         raise RuntimeError(msg)
 
+    check_finite(u)
+
     # compute error
-    err = u[-1] / max(np.absolute(u))
+    err = abs(u[-1]) / max(np.absolute(u))
 
     if err > tol:
         msg = "Lagrangian multiplier method error exceeds tolerance."
@@ -109,8 +129,14 @@ def solve_direct(
 
     Returns:
         The solution vector to the linear system of equations
+
+    Raises:
+        RuntimeError: If the solution is not finite
     """
-    return sp_solve(A=k, b=f)
+    u = sp_solve(A=k, b=f)
+    check_finite(u)
+
+    return u
 
 
 def solve_direct_lagrange(
@@ -132,6 +158,7 @@ def solve_direct_lagrange(
             precision.
     """
     u = sp_solve(A=k_lg, b=np.append(f, 0))
+    check_finite(u)
 
     # compute error
     multiplier = abs(u[-1])
-- 
2.43.0


From a40e8e2bcb5bbfab556bc89ffec086eccf6faab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 04/14] fix: guard the process-wide pardiso solver against
 threads and interrupts

---
 src/sectionproperties/analysis/solver.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/solver.py b/src/sectionproperties/analysis/solver.py
index d587a59..24690a1 100644
--- a/src/sectionproperties/analysis/solver.py
+++ b/src/sectionproperties/analysis/solver.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import threading
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -26,7 +27,23 @@ if TYPE_CHECKING:
 try:
     import pypardiso
 
-    sp_solve = pypardiso.spsolve
+    # pypardiso keeps the last factorised matrix in a solver that is shared by the
+    # entire process
+    pardiso_lock = threading.Lock()
+
+    def sp_solve(
+        A: csc_matrix,  # noqa: N803
+        b: npt.NDArray[np.float64],
+    ) -> npt.NDArray[np.float64]:
+        """Solves a sparse linear system with ``pypardiso``, one system at a time."""
+        with pardiso_lock:
+            try:
+                return pypardiso.spsolve(A=A, b=b)
+            except BaseException:
+                # the factorisation may be incomplete and cannot be reused
+                pypardiso.ps.remove_stored_factorization()
+                raise
+
 except ImportError:
     sp_solve = spsolve
 
-- 
2.43.0


From 905d7de2f17ada71519c219400cc8f993d6e1010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 05/14] fix: close the figure opened for a plot that fails

---
 src/sectionproperties/post/post.py | 94 +++++++++++++++++-------------
 1 file changed, 52 insertions(+), 42 deletions(-)

diff --git a/src/sectionproperties/post/post.py b/src/sectionproperties/post/post.py
index 8eb6571..4a839d7 100644
--- a/src/sectionproperties/post/post.py
+++ b/src/sectionproperties/post/post.py
@@ -368,56 +368,66 @@ def plotting_context(
     if filename:
         render = False
 
-    if ax is None:
-        if not render or pause:
-            plt.ioff()  # pyright: ignore
-        else:
-            plt.ion()  # pyright: ignore
+    open_figures = plt.get_fignums()
+    ax_supplied = ax is not None
 
-        ax_supplied = False
-        fig, ax = plt.subplots(**kwargs)  # pyright: ignore
+    try:
+        if ax is None:
+            if not render or pause:
+                plt.ioff()  # pyright: ignore
+            else:
+                plt.ion()  # pyright: ignore
 
-        try:
-            if axis_index is None:
-                axis_index = (0,) * ax.ndim  # pyright: ignore
-
-            ax = ax[axis_index]  # pyright: ignore
-        except (AttributeError, TypeError):
-            pass  # only 1 axis, not an array
-        except IndexError as exc:
-            msg = f"axis_index={axis_index} is not compatible "
-            msg += f"with arguments to subplots: {kwargs}"
-            raise ValueError(msg) from exc
-    else:
-        fig = ax.get_figure()
-        ax_supplied = True
+            fig, ax = plt.subplots(**kwargs)  # pyright: ignore
 
-        if not render:
-            plt.ioff()  # pyright: ignore
+            try:
+                if axis_index is None:
+                    axis_index = (0,) * ax.ndim  # pyright: ignore
 
-    yield fig, ax  # pyright: ignore
+                ax = ax[axis_index]  # pyright: ignore
+            except (AttributeError, TypeError):
+                pass  # only 1 axis, not an array
+            except IndexError as exc:
+                msg = f"axis_index={axis_index} is not compatible "
+                msg += f"with arguments to subplots: {kwargs}"
+                raise ValueError(msg) from exc
+        else:
+            fig = ax.get_figure()
 
-    if ax is not None:
-        ax.set_title(title)  # pyright: ignore
-        plt.tight_layout()
-        ax.set_aspect("equal", anchor="C")  # pyright: ignore
+            if not render:
+                plt.ioff()  # pyright: ignore
 
-    # if no axes was supplied, finish the plot and return the figure and axes
-    if ax_supplied:
-        # if an axis was supplied, don't continue displaying or configuring the plot
-        return
+        yield fig, ax  # pyright: ignore
 
-    if filename:
-        fig.savefig(filename, dpi=fig.dpi)  # pyright: ignore
-        plt.close(fig)  # pyright: ignore  # close the figure to free the memory
-        return  # if the figure was to be saved, then don't show it also
+        if ax is not None:
+            ax.set_title(title)  # pyright: ignore
+            plt.tight_layout()
+            ax.set_aspect("equal", anchor="C")  # pyright: ignore
 
-    if render:
-        if pause:
-            plt.show()  # pyright: ignore
-        else:
-            plt.draw()
-            plt.pause(0.001)
+        # if no axes was supplied, finish the plot and return the figure and axes
+        if ax_supplied:
+            # if an axis was supplied, don't continue displaying or configuring the plot
+            return
+
+        if filename:
+            fig.savefig(filename, dpi=fig.dpi)  # pyright: ignore
+            plt.close(fig)  # pyright: ignore  # close the figure to free the memory
+            return  # if the figure was to be saved, then don't show it also
+
+        if render:
+            if pause:
+                plt.show()  # pyright: ignore
+            else:
+                plt.draw()
+                plt.pause(0.001)
+    except BaseException:
+        # if the plot failed, close the figure that was opened for it
+        if not ax_supplied:
+            for num in plt.get_fignums():
+                if num not in open_figures:
+                    plt.close(num)
+
+        raise
 
 
 def draw_principal_axis(
-- 
2.43.0


From 8ab7f3b86c9517e7d606c14b36d91501fd299f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 06/14] fix: keep using the mesh a section was created with for
 warping analysis and fibre export

---
 src/sectionproperties/analysis/section.py | 39 +++++++++++++----------
 src/sectionproperties/post/fibre.py       |  8 ++---
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 1e32607..2cc54c7 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -6,6 +6,7 @@ properties.
 
 from __future__ import annotations
 
+import copy
 import warnings
 from dataclasses import dataclass, field
 from typing import TYPE_CHECKING, Any, cast
@@ -173,6 +174,25 @@ class Section:
         # initialise class storing section properties
         self.section_props = post.SectionProperties()
 
+    def _shift_to_centroid(self) -> Section:
+        """Creates a copy of the section with the origin shifted to the centroid.
+
+        The copy uses the mesh of this section, also if the geometry has been re-meshed
+        after this section was created. Only the coordinates of the elements are
+        shifted.
+
+        Returns:
+            Copy of the section with shifted elements
+        """
+        cx, cy = self.get_c()
+        section = copy.copy(self)
+        section.elements = [copy.copy(el) for el in self.elements]
+
+        for el in section.elements:
+            el.coords = el.coords - np.array([[cx], [cy]])
+
+        return section
+
     def calculate_geometric_properties(self) -> None:
         r"""Calculates geometric (area) properties.
 
@@ -429,15 +449,8 @@ class Section:
         # create a new Section with the origin shifted to the centroid for calculation
         # of the warping properties such that the Lagrangian multiplier approach can be
         # utilised
-        warping_section = Section(geometry=self.geometry)
-
-        # shift the coordinates of each element
         # N.B. the mesh class attribute remains unshifted!
-        cx, cy = self.get_c()
-
-        for el in warping_section.elements:
-            el.coords[0, :] -= cx
-            el.coords[1, :] -= cy
+        warping_section = self._shift_to_centroid()
 
         # entire warping analysis is contained in following definition
         def warping_analysis(progress: Progress | None = None) -> None:
@@ -1013,14 +1026,8 @@ class Section:
         def warping_analysis(progress: Progress | None = None) -> None:
             # create a new Section with the origin shifted to the centroid for
             # calculation of the warping properties
-            warping_section = Section(geometry=self.geometry)
-
-            # shift the coordinates of each element N.B. the mesh class attribute
-            # remains unshifted
-            cx, cy = self.get_c()
-            for el in warping_section.elements:
-                el.coords[0, :] -= cx
-                el.coords[1, :] -= cy
+            # N.B. the mesh class attribute remains unshifted
+            warping_section = self._shift_to_centroid()
 
             # assemble stiffness matrix and load vector for warping function
             if progress:
diff --git a/src/sectionproperties/post/fibre.py b/src/sectionproperties/post/fibre.py
index 9310bdd..0c4f05f 100644
--- a/src/sectionproperties/post/fibre.py
+++ b/src/sectionproperties/post/fibre.py
@@ -156,11 +156,7 @@ def to_fibre_section(
     Returns:
         str: The exported commands
     """
-    if isinstance(obj, Geometry | CompoundGeometry):
-        geometry = obj
-    elif isinstance(obj, Section):  # pyright: ignore [reportUnnecessaryIsInstance]
-        geometry = obj.geometry
-    else:
+    if not isinstance(obj, Geometry | CompoundGeometry | Section):  # pyright: ignore [reportUnnecessaryIsInstance]
         msg = f"Expected a Geometry or Section, got {type(obj).__name__}"
         raise TypeError(msg)
 
@@ -180,7 +176,7 @@ def to_fibre_section(
         msg = "Invalid analysis type, expected 2D, 3D or 3DOS"
         raise ValueError(msg)
 
-    section = Section(geometry)
+    section = obj if isinstance(obj, Section) else Section(obj)
 
     if cell_class is Cell3DOS:
         stiffness, force = section.assemble_torsion()
-- 
2.43.0


From 2eb7cb3001beb976d92dc191e048a3cfe22334eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 07/14] fix: store the results of an analysis only once it has
 completed

---
 src/sectionproperties/analysis/section.py | 41 ++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 2cc54c7..d37b765 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -7,9 +7,10 @@ properties.
 from __future__ import annotations
 
 import copy
+import functools
 import warnings
 from dataclasses import dataclass, field
-from typing import TYPE_CHECKING, Any, cast
+from typing import TYPE_CHECKING, Any, Concatenate, ParamSpec, TypeVar, cast
 
 import matplotlib.patches as mpatches
 import matplotlib.tri as tri
@@ -40,6 +41,40 @@ if TYPE_CHECKING:
     from rich.progress import Progress, TaskID
 
 
+_P = ParamSpec("_P")
+_R = TypeVar("_R")
+
+
+def store_when_complete(
+    analysis: Callable[Concatenate[Section, _P], _R],
+) -> Callable[Concatenate[Section, _P], _R]:
+    """Decorates an analysis such that its results are stored only if it completes.
+
+    The analysis is carried out on a shallow copy of the section with its own
+    ``section_props``. The results are transferred to the ``section_props`` of the
+    section in one step, once the analysis has completed. An analysis that fails or is
+    interrupted leaves the ``section_props`` of the section unchanged.
+
+    Args:
+        analysis: Method of :class:`~sectionproperties.analysis.section.Section` that
+            stores results in ``section_props``
+
+    Returns:
+        Decorated method
+    """
+
+    @functools.wraps(analysis)
+    def wrapper(self: Section, /, *args: _P.args, **kwargs: _P.kwargs) -> _R:
+        trial = copy.copy(self)
+        trial.section_props = copy.copy(self.section_props)
+        result = analysis(trial, *args, **kwargs)
+        vars(self.section_props).update(vars(trial.section_props))
+
+        return result
+
+    return wrapper
+
+
 class Section:
     """Class for structural cross-sections.
 
@@ -193,6 +228,7 @@ class Section:
 
         return section
 
+    @store_when_complete
     def calculate_geometric_properties(self) -> None:
         r"""Calculates geometric (area) properties.
 
@@ -387,6 +423,7 @@ class Section:
         else:
             calculate_geom()  # calculate geometric properties
 
+    @store_when_complete
     def calculate_warping_properties(
         self,
         solver_type: str = "direct",
@@ -887,6 +924,7 @@ class Section:
         else:
             warping_analysis()
 
+    @store_when_complete
     def calculate_frame_properties(
         self,
         solver_type: str = "direct",
@@ -1170,6 +1208,7 @@ class Section:
             self.section_props.phi,
         )
 
+    @store_when_complete
     def calculate_plastic_properties(
         self,
         verbose: bool = False,
-- 
2.43.0


From b827ec97966026b6e7610c355c477f9ed4ef765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 08/14] fix: mirror all regions of a compound, and assigned
 control points, about one centre

CompoundGeometry.mirror_section() with the default mirror point mirrored each region about
its own centre, which tore the section apart and left regions overlapping. A control point
that was assigned by the user was not mirrored at all with the default mirror point.
---
 src/sectionproperties/pre/geometry.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 9b78b13..400f618 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -807,6 +807,10 @@ class Geometry:
         else:
             m_pt = mirror_point
 
+            if self.assigned_control_point and mirror_point == "center":
+                centre = box(*self.geom.bounds).centroid
+                m_pt = centre.x, centre.y
+
         if axis == "x":
             x_mirror = -x_mirror
         elif axis == "y":
@@ -828,7 +832,7 @@ class Geometry:
                 xfact=y_mirror,
                 yfact=x_mirror,
                 zfact=1.0,
-                origin=mirror_point,  # pyright: ignore [reportArgumentType]
+                origin=m_pt,  # pyright: ignore [reportArgumentType]
             )
             new_ctrl_point = new_ctrl_point_geom.x, new_ctrl_point_geom.y
 
@@ -2146,9 +2150,14 @@ class CompoundGeometry(Geometry):
                 )
                 compound.mirror_section(axis="y", mirror_point=(0,0)).plot_geometry()
         """
+        if mirror_point == "center":
+            centre = box(*MultiPolygon(self.geom).bounds).centroid
+            mp = centre.x, centre.y
+        else:
+            mp = mirror_point
+
         geoms_acc = [
-            geom.mirror_section(axis=axis, mirror_point=mirror_point)
-            for geom in self.geoms
+            geom.mirror_section(axis=axis, mirror_point=mp) for geom in self.geoms
         ]
 
         return CompoundGeometry(geoms=geoms_acc)
-- 
2.43.0


From 5891be92670eaadbcd01bd9e0e2e0c801fb6958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 09/14] fix: map materials of a fibre section by name, not by
 text replacement

A mapped name that is part of another material's name, of a word in the header comment or
of another tag corrupted the exported commands.
---
 src/sectionproperties/post/fibre.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/post/fibre.py b/src/sectionproperties/post/fibre.py
index 0c4f05f..1ef7e9a 100644
--- a/src/sectionproperties/post/fibre.py
+++ b/src/sectionproperties/post/fibre.py
@@ -186,6 +186,13 @@ def to_fibre_section(
 
     cells = [cell_class(ele, omega) for ele in section.elements]
 
+    if material_mapping is not None:
+        tags = {
+            "-".join(name.split()): str(tag) for name, tag in material_mapping.items()
+        }
+        for cell in cells:
+            cell.material = tags.get(cell.material, cell.material)
+
     commands = """# This is generated by sectionproperties library.
 # Please note the following:
 #   1. The warping function and its derivatives (if present) are computed in the
@@ -207,10 +214,6 @@ def to_fibre_section(
     commands += "\n".join(cell.export() for cell in cells)
     commands += "\n\n"
 
-    if material_mapping is not None:
-        for name, tag in material_mapping.items():
-            commands = commands.replace("-".join(name.split()), str(tag))
-
     if isinstance(save_to, str):
         with open(save_to, "w") as f:
             f.write(commands)
-- 
2.43.0


From 9b9c428b11e2b11000865b09343684c7fac27f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 10/14] fix: report errors while reading a 3dm file instead of
 importing part of it

---
 src/sectionproperties/pre/rhino.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/rhino.py b/src/sectionproperties/pre/rhino.py
index bcfac5d..5050e97 100644
--- a/src/sectionproperties/pre/rhino.py
+++ b/src/sectionproperties/pre/rhino.py
@@ -2,13 +2,12 @@
 
 from __future__ import annotations
 
+import pathlib
 from typing import TYPE_CHECKING, Any
 
 from rhino_shapely_interop.importers import RhImporter
 
 if TYPE_CHECKING:
-    import pathlib
-
     from shapely import Polygon
 
 
@@ -46,6 +45,7 @@ def load_3dm(
             surfaces are filtered out. Default is False.
 
     Raises:
+        ValueError: If the file does not exist or is not a ``.3dm`` file.
         RuntimeError: A RuntimeError is raised if no polygons are found in the file.
             This is dependent on the keyword arguments. Try adjusting the keyword
             arguments if this error is raised.
@@ -53,7 +53,15 @@ def load_3dm(
     Returns:
         List of Polygons found in the file.
     """
-    rhi = RhImporter.from_file(str(r3dm_filepath))
+    filepath = pathlib.Path(r3dm_filepath)
+
+    if not (filepath.is_file() and str(filepath).endswith(".3dm")):
+        msg = f"File does not exist or is not a Rhino file: {r3dm_filepath}."
+        raise ValueError(msg)
+
+    # read the entire file first, rhino3dm may ignore an error that occurs while reading
+    # a file and return an incomplete model
+    rhi = RhImporter.from_file_byte_array(filepath.read_bytes())  # pyright: ignore [reportArgumentType]
     list_polygons = list(rhi.get_planer_brep(**kwargs))
 
     if len(list_polygons) == 0:
-- 
2.43.0


From 7b4b0c48540b227573cb35d735b27bd4154bb33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 11/14] fix: repeated points in an imported ring crashed the
 mesher

---
 src/sectionproperties/pre/geometry.py | 28 +++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 400f618..6530227 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2610,6 +2610,26 @@ def create_interior_points(
     return cast("list[tuple[float, float]]", [tuple(coord) for coord in lr.coords])
 
 
+def remove_repeated_points(
+    points_list: list[tuple[float, float]],
+) -> list[tuple[float, float]]:
+    """Removes points that coincide with their successor in a closed ring.
+
+    Vertices that are closer together than the rounding tolerance would otherwise be
+    joined by facets of zero length, which the mesher cannot handle.
+
+    Args:
+        points_list: List of rounded points in a closed ring, where the first point is
+            not repeated as the last point
+
+    Returns:
+        List of points without consecutive duplicates
+    """
+    next_points = points_list[1:] + points_list[:1]
+
+    return [pt for pt, nxt in zip(points_list, next_points, strict=True) if pt != nxt]
+
+
 def create_points_and_facets(
     shape: Polygon,
     tol: int = 12,
@@ -2633,7 +2653,9 @@ def create_points_and_facets(
         x, y = list(coords)
         x, y = round(x, tol), round(y, tol)
         points.append((x, y))
-        master_count += 1
+
+    points = remove_repeated_points(points_list=points)
+    master_count += len(points)
 
     facets += create_facets(points_list=points, connect_back=True)
     exterior_count = master_count
@@ -2647,7 +2669,9 @@ def create_points_and_facets(
             x, y = list(coords)
             x, y = round(x, tol), round(y, tol)
             int_points.append((x, y))
-            master_count += 1
+
+        int_points = remove_repeated_points(points_list=int_points)
+        master_count += len(int_points)
 
         # (idx > 0), (idx < 1) are like a 'step functions'
         offset = break_count * (idx > 0) + exterior_count * (idx < 1)
-- 
2.43.0


From 9d11f2ac96cea87abbb76e7ce9a4f7c395426f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 12/14] fix: plots laid out the current figure instead of their
 own

---
 src/sectionproperties/post/post.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/post/post.py b/src/sectionproperties/post/post.py
index 4a839d7..5bdc9a7 100644
--- a/src/sectionproperties/post/post.py
+++ b/src/sectionproperties/post/post.py
@@ -401,7 +401,8 @@ def plotting_context(
 
         if ax is not None:
             ax.set_title(title)  # pyright: ignore
-            plt.tight_layout()
+            # lay out the figure of this plot, which may not be the current figure
+            fig.canvas.figure.tight_layout()  # pyright: ignore
             ax.set_aspect("equal", anchor="C")  # pyright: ignore
 
         # if no axes was supplied, finish the plot and return the figure and axes
-- 
2.43.0


From edf61815ccf4a475c82d166ce30e7b6cf022d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:38 +0000
Subject: [PATCH 13/14] fix: bound the caches of the shape functions

The shape functions were cached without a limit for each Gauss point of each
element of each mesh, and for each point at which stresses are requested. The
memory of a process thus grew with every section analysed (about 14 MB for a
mesh with 1000 elements) and was not released with the section.
---
 src/sectionproperties/analysis/fea.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/analysis/fea.py b/src/sectionproperties/analysis/fea.py
index d9b03ae..3869630 100644
--- a/src/sectionproperties/analysis/fea.py
+++ b/src/sectionproperties/analysis/fea.py
@@ -8,7 +8,7 @@ Finite element classes:
 from __future__ import annotations
 
 from dataclasses import dataclass, field
-from functools import cache
+from functools import cache, lru_cache
 from typing import TYPE_CHECKING, Any
 
 import numpy as np
@@ -987,7 +987,8 @@ def gauss_points(*, n: int) -> npt.NDArray[np.float64]:
 tmp_array = np.array([[0, 1, 0], [0, 0, 1]], dtype=np.double)
 
 
-@cache
+# the cache is bounded, as the arguments differ for each element of each mesh
+@lru_cache(maxsize=2**16)
 @njit(cache=True, nogil=True)
 def __shape_function_cached(
     coords: tuple[float, ...],
@@ -1071,7 +1072,8 @@ def shape_function(
     return __shape_function_cached(tuple(coords.ravel()), tuple(gauss_point[1:]))
 
 
-@cache
+# the cache is bounded, as the arguments may differ for each requested point
+@lru_cache(maxsize=2**10)
 @njit(cache=True, nogil=True)
 def shape_function_only(p: tuple[float, float, float]) -> npt.NDArray[np.float64]:
     """The values of the ``Tri6`` shape function at a point ``p``.
-- 
2.43.0


From ec8e17a84e572521c676b5525a4e74c2c94cbeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:44 +0000
Subject: [PATCH 14/14] fix: point_above_line failed when compiled by numba

---
 src/sectionproperties/analysis/fea.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/analysis/fea.py b/src/sectionproperties/analysis/fea.py
index 3869630..19e4612 100644
--- a/src/sectionproperties/analysis/fea.py
+++ b/src/sectionproperties/analysis/fea.py
@@ -1232,5 +1232,7 @@ def point_above_line(
         True if the point is above the line or False if the point is below the line
     """
     # vector from point to point on line
-    pq = np.array([px - x, py - y])
-    return bool(np.cross(pq, u) > 0)
+    pq_x, pq_y = px - x, py - y
+
+    # cross product (np.cross does not support 2D vectors when compiled by numba)
+    return bool(pq_x * u[1] - pq_y * u[0] > 0)
-- 
2.43.0

