From 85f0290113035298930eabec0ef22f6516ddff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 01/15] fix: Hyperslab::nr_elements multiplies counts only, not
 strides

---
 source/data_model/hdf5/source/hyperslab.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/hdf5/source/hyperslab.cpp b/source/data_model/hdf5/source/hyperslab.cpp
index 7d3952a..81d8895 100644
--- a/source/data_model/hdf5/source/hyperslab.cpp
+++ b/source/data_model/hdf5/source/hyperslab.cpp
@@ -155,7 +155,7 @@ namespace lue::hdf5 {
 
             for (std::size_t i = 0; i < nr_dimensions(); ++i)
             {
-                result *= (_stride[i] * _count[i]);
+                result *= _count[i];
             }
         }
 
-- 
2.43.0


From 6d907301ea236dbca60a9fd6d4197786f4e4fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 02/15] fix: Attribute closes the identifier of its datatype

---
 source/data_model/hdf5/source/attribute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/source/attribute.cpp b/source/data_model/hdf5/source/attribute.cpp
index 5ddef63..48374f4 100644
--- a/source/data_model/hdf5/source/attribute.cpp
+++ b/source/data_model/hdf5/source/attribute.cpp
@@ -10,7 +10,7 @@ namespace lue::hdf5 {
     Attribute::Attribute(Identifier&& id):
 
         _id{std::move(id)},
-        _datatype{H5Aget_type(_id)},
+        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
         _dataspace{H5Aget_space(_id)}
 
     {
@@ -26,7 +26,7 @@ namespace lue::hdf5 {
     Attribute::Attribute(Identifier const& location, std::string const& name):
 
         _id(H5Aopen(location, name.c_str(), H5P_DEFAULT), H5Aclose),
-        _datatype{H5Aget_type(_id)},
+        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
         _dataspace{H5Aget_space(_id)}
 
     {
-- 
2.43.0


From c93036a93ce19e5dc2bfacdd164e1d29b570ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 03/15] fix: copy-assigning an Identifier keeps it intact when
 the copy cannot be counted

---
 source/data_model/hdf5/source/identifier.cpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/source/data_model/hdf5/source/identifier.cpp b/source/data_model/hdf5/source/identifier.cpp
index ad29a1d..6a40069 100644
--- a/source/data_model/hdf5/source/identifier.cpp
+++ b/source/data_model/hdf5/source/identifier.cpp
@@ -115,23 +115,12 @@ namespace lue::hdf5 {
     auto Identifier::operator=(Identifier const& other) -> Identifier&
     {
         // Copy-assign:
-        // - Clean-up this instance
-        // - Copy the other instance in
+        // - Copy the other instance, which fails without changing this instance
+        // - Clean-up this instance and move the copy in
 
         if (&other != this)
         {
-            close_if_valid();
-
-            _id = other._id;
-
-            if (is_valid())
-            {
-                increment_reference_count();
-            }
-
-            _close = other._close;
-
-            assert_invariant();
+            *this = Identifier{other};
         }
 
         return *this;
-- 
2.43.0


From 4787ef284eb29354498c47272fbe990cc77b1ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 04/15] fix: chunk_shape keeps chunks non-empty and below the
 upper size limit

The extents of a chunk of part of a value could become zero (for elements that are large compared to the extents of a
square chunk), and chunks of values of rank three and more could become larger than the limit.
---
 source/data_model/hdf5/source/chunk.cpp | 37 ++++++++++++++-----------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/source/data_model/hdf5/source/chunk.cpp b/source/data_model/hdf5/source/chunk.cpp
index 895b7f2..76b0e9f 100644
--- a/source/data_model/hdf5/source/chunk.cpp
+++ b/source/data_model/hdf5/source/chunk.cpp
@@ -70,18 +70,14 @@ namespace lue::hdf5 {
             result.resize(value_shape.size() + 1, 0);
             result[0] = 1;
 
-            // Determine the size of each chunk dimension (except for the first one, which is 1) in case the
-            // chunk is square. These are all in bytes.
-            double const chunk_size_bytes =
-                static_cast<double>(value_size_bytes) * nr_values_in_largest_chunk;
-            double const chunk_size_bytes_per_dimension =
-                std::pow(chunk_size_bytes, 1.0 / static_cast<double>(value_shape.size()));
-            double chunk_size_elements_per_dimension =
-                chunk_size_bytes_per_dimension / static_cast<double>(size_of_element);
+            // Determine the number of elements that can be stored in a chunk. In case a single element is
+            // larger than the largest chunk, chunks contain a single element.
+            Shape::value_type nr_elements_in_chunk =
+                std::max<Shape::value_type>(upper_chunk_size_limit() / size_of_element, 1);
 
             // Adjust the shape of the chunk to the shape of the value. If the shape has dimensions with
-            // extents smaller than the chunk size per dimension calculated above, make the chunk size equal
-            // to these extents and enlarge other dimensions.
+            // extents smaller than the extent of a square chunk, make the chunk extent equal to these
+            // extents and enlarge other dimensions.
 
             // Visit the value dimensions in the order of increasing extent. Determine indices of the
             // dimensions in this order.
@@ -99,19 +95,28 @@ namespace lue::hdf5 {
                 { return std::get<0>(lhs) < std::get<0>(rhs); });
 
             // Iterate over the dimensions, in increasing extent order.
+            std::size_t nr_dimensions_left{value_shape.size()};
+
             for (auto const& tuple : tuples)
             {
                 auto const extent = std::get<0>(tuple);
                 auto const index = std::get<1>(tuple);
 
+                // Size of dimension, in elements, in case the elements that are left are distributed evenly
+                // over the dimensions that are left. This is at least one.
+                auto const chunk_size_elements_per_dimension =
+                    static_cast<Shape::value_type>(std::floor(std::pow(
+                        static_cast<double>(nr_elements_in_chunk),
+                        1.0 / static_cast<double>(nr_dimensions_left))));
+
                 // Size of dimension, in elements.
-                auto const chunk_size_elements_of_dimension = std::min(
-                    static_cast<Shape::value_type>(std::floor(chunk_size_elements_per_dimension)), extent);
+                auto const chunk_size_elements_of_dimension =
+                    std::min(chunk_size_elements_per_dimension, extent);
 
-                // If the extent of the chunk in the current dimension is lower than the average one, we must
-                // enlarge the next chunk dimension extents.
-                chunk_size_elements_per_dimension *=
-                    chunk_size_elements_per_dimension / static_cast<double>(chunk_size_elements_of_dimension);
+                // If the extent of the chunk in the current dimension is lower than the average one, the
+                // next chunk dimension extents become larger.
+                nr_elements_in_chunk /= chunk_size_elements_of_dimension;
+                --nr_dimensions_left;
 
                 result[index + 1] = chunk_size_elements_of_dimension;
                 assert(result[index + 1] <= value_shape[index]);
-- 
2.43.0


From b12895e4eac6a48ed53b3e597c5fcc591785e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 05/15] fix: writing an attribute replaces an existing one that
 cannot represent the value

---
 .../hdf5/include/lue/hdf5/attribute.hpp       | 32 +++++++++++++++++++
 .../hdf5/include/lue/hdf5/attributes.hpp      | 11 ++++++-
 source/data_model/hdf5/source/attributes.cpp  | 15 +++++++++
 3 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
index 6c6f486..0d381d2 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
@@ -257,4 +257,36 @@ namespace lue::hdf5 {
         return attribute;
     }
 
+
+    namespace detail {
+
+        /*!
+            @brief      Return whether @a value can be stored in @a attribute as it is
+        */
+        template<typename T>
+            requires(!std::is_base_of_v<std::vector<::hsize_t>, T>)
+        auto fits(Attribute const& attribute, [[maybe_unused]] T const& value) -> bool
+        {
+            return attribute.datatype() == Datatype{NativeDatatypeTraits<T>::type_id()} &&
+                   attribute.dataspace().nr_elements() == 1;
+        }
+
+
+        template<>
+        inline auto fits<std::string>(Attribute const& attribute, std::string const& value) -> bool
+        {
+            return attribute.datatype() == create_datatype(value.size()) &&
+                   attribute.dataspace().nr_elements() == 1;
+        }
+
+
+        template<typename T>
+        auto fits(Attribute const& attribute, std::vector<T> const& value) -> bool
+        {
+            return attribute.datatype() == Datatype{NativeDatatypeTraits<T>::type_id()} &&
+                   attribute.dataspace().dimension_extents() == Shape{value.size()};
+        }
+
+    }  // namespace detail
+
 }  // namespace lue::hdf5
diff --git a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
index b5dd6c8..bbc21ea 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
@@ -22,13 +22,20 @@ namespace lue::hdf5 {
             /*!
                 @brief      Store @a value of attribute @a name
 
-                In case no attribute named @a name exists, it is created.
+                In case no attribute named @a name exists, it is created. An existing attribute that cannot
+                represent @a value is replaced.
             */
             template<typename T>
             void write(std::string const& name, T const& value)
             {
                 assert(_id.is_valid());
 
+                if (exists(name) && !detail::fits(attribute(name), value))
+                {
+                    // The existing attribute is of another type or size
+                    remove(name);
+                }
+
                 if (!exists(name))
                 {
                     create_attribute(_id, name, value);
@@ -57,6 +64,8 @@ namespace lue::hdf5 {
 
             auto datatype(std::string const& name) const -> Datatype;
 
+            void remove(std::string const& name);
+
         private:
 
             //! Identifier of object owning the attributes
diff --git a/source/data_model/hdf5/source/attributes.cpp b/source/data_model/hdf5/source/attributes.cpp
index 61099c0..3e5f448 100644
--- a/source/data_model/hdf5/source/attributes.cpp
+++ b/source/data_model/hdf5/source/attributes.cpp
@@ -60,4 +60,19 @@ namespace lue::hdf5 {
         return attribute(name).datatype();
     }
 
+
+    /*!
+        @brief      Remove the attribute named @a name
+        @exception  std::runtime_error In case the attribute cannot be removed
+    */
+    void Attributes::remove(std::string const& name)
+    {
+        herr_t const status{H5Adelete(_id, name.c_str())};
+
+        if (status < 0)
+        {
+            throw std::runtime_error("Cannot remove attribute");
+        }
+    }
+
 }  // namespace lue::hdf5
-- 
2.43.0


From f3542a442e99f738dfd0483800f61e090c5be50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 06/15] fix: a failure to find or open an attribute is reported

---
 source/data_model/hdf5/source/attribute.cpp  | 4 ++++
 source/data_model/hdf5/source/attributes.cpp | 9 ++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/source/data_model/hdf5/source/attribute.cpp b/source/data_model/hdf5/source/attribute.cpp
index 48374f4..5ff15c5 100644
--- a/source/data_model/hdf5/source/attribute.cpp
+++ b/source/data_model/hdf5/source/attribute.cpp
@@ -30,6 +30,10 @@ namespace lue::hdf5 {
         _dataspace{H5Aget_space(_id)}
 
     {
+        if (!_id.is_valid())
+        {
+            throw std::runtime_error("Cannot open attribute");
+        }
     }
 
 
diff --git a/source/data_model/hdf5/source/attributes.cpp b/source/data_model/hdf5/source/attributes.cpp
index 3e5f448..ba581e3 100644
--- a/source/data_model/hdf5/source/attributes.cpp
+++ b/source/data_model/hdf5/source/attributes.cpp
@@ -36,7 +36,14 @@ namespace lue::hdf5 {
     */
     auto Attributes::exists(std::string const& name) const -> bool
     {
-        return H5Aexists(_id, name.c_str()) > 0;
+        htri_t const status{H5Aexists(_id, name.c_str())};
+
+        if (status < 0)
+        {
+            throw std::runtime_error("Cannot determine whether attribute exists");
+        }
+
+        return status > 0;
     }
 
 
-- 
2.43.0


From 03cacefd0861a13a1048fd959260186b270cc994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 07/15] fix: a failure to determine the number of elements of a
 dataspace is reported

---
 source/data_model/hdf5/source/dataspace.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/data_model/hdf5/source/dataspace.cpp b/source/data_model/hdf5/source/dataspace.cpp
index d87e448..34d5708 100644
--- a/source/data_model/hdf5/source/dataspace.cpp
+++ b/source/data_model/hdf5/source/dataspace.cpp
@@ -106,7 +106,14 @@ namespace lue::hdf5 {
 
     auto Dataspace::nr_elements() const -> hssize_t
     {
-        return H5Sget_simple_extent_npoints(_id);
+        hssize_t const nr_elements{H5Sget_simple_extent_npoints(_id)};
+
+        if (nr_elements < 0)
+        {
+            throw std::runtime_error("Cannot retrieve number of dataspace elements");
+        }
+
+        return nr_elements;
     }
 
 
-- 
2.43.0


From 98dc33b78147478d2c3178082691dff8669a78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:56 +0000
Subject: [PATCH 08/15] fix: failures to retrieve the name of an object, the
 path of a soft link or the name of a file are reported

---
 source/data_model/hdf5/source/file.cpp       | 5 ++++-
 source/data_model/hdf5/source/identifier.cpp | 5 ++++-
 source/data_model/hdf5/source/soft_link.cpp  | 8 ++++++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/data_model/hdf5/source/file.cpp b/source/data_model/hdf5/source/file.cpp
index 8289428..ffb6c66 100644
--- a/source/data_model/hdf5/source/file.cpp
+++ b/source/data_model/hdf5/source/file.cpp
@@ -162,7 +162,10 @@ namespace lue::hdf5 {
 
         std::string result(nr_bytes, 'x');
 
-        /* nr_bytes = */ H5Fget_name(id(), result.data(), nr_bytes + 1);
+        if (H5Fget_name(id(), result.data(), nr_bytes + 1) < 0)
+        {
+            throw std::runtime_error("Cannot retrieve name of file");
+        }
 
         return result;
     }
diff --git a/source/data_model/hdf5/source/identifier.cpp b/source/data_model/hdf5/source/identifier.cpp
index 6a40069..2054bff 100644
--- a/source/data_model/hdf5/source/identifier.cpp
+++ b/source/data_model/hdf5/source/identifier.cpp
@@ -318,7 +318,10 @@ namespace lue::hdf5 {
 
         std::string result(nr_bytes, 'x');
 
-        /* nr_bytes = */ H5Iget_name(_id, result.data(), nr_bytes + 1);
+        if (H5Iget_name(_id, result.data(), nr_bytes + 1) < 0)
+        {
+            throw std::runtime_error("Cannot retrieve name of object");
+        }
 
         return result;
     }
diff --git a/source/data_model/hdf5/source/soft_link.cpp b/source/data_model/hdf5/source/soft_link.cpp
index 02b676b..452254e 100644
--- a/source/data_model/hdf5/source/soft_link.cpp
+++ b/source/data_model/hdf5/source/soft_link.cpp
@@ -21,9 +21,13 @@ namespace lue::hdf5 {
         std::string name;
         name.resize(nr_bytes, 'x');
 
-        [[maybe_unused]] herr_t const result{
+        herr_t const status{
             H5Lget_val(location_id(), this->name().c_str(), name.data(), nr_bytes, H5P_DEFAULT)};
-        assert(result >= 0);
+
+        if (status < 0)
+        {
+            throw std::runtime_error(std::format("Cannot retrieve path of soft link {}", this->name()));
+        }
 
         name.resize(nr_bytes - 1);
 
-- 
2.43.0


From 2713ba073791965cfbff1ace9513cb81326ba936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:56 +0000
Subject: [PATCH 09/15] fix: opening an object that cannot be opened is
 reported

---
 source/data_model/hdf5/source/primary_data_object.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/data_model/hdf5/source/primary_data_object.cpp b/source/data_model/hdf5/source/primary_data_object.cpp
index 868a317..42c487d 100644
--- a/source/data_model/hdf5/source/primary_data_object.cpp
+++ b/source/data_model/hdf5/source/primary_data_object.cpp
@@ -1,4 +1,5 @@
 #include "lue/hdf5/primary_data_object.hpp"
+#include <format>
 
 
 namespace lue::hdf5 {
@@ -8,6 +9,10 @@ namespace lue::hdf5 {
         PrimaryDataObject{Identifier{H5Oopen(location, name.c_str(), H5P_DEFAULT), H5Oclose}}
 
     {
+        if (!_id.is_valid())
+        {
+            throw std::runtime_error(std::format("Cannot open object {}", name));
+        }
     }
 
 
-- 
2.43.0


From 6189c00f1a521ef9f04d2607fc7a3a5d93ecaacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:07 +0000
Subject: [PATCH 10/15] fix: expanding a different-shape value from a list of
 extents uses all extents, for any rank

---
 source/data_model/cxx/source/array/different_shape/value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/cxx/source/array/different_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/value.cpp
index 5e9d295..a0fedac 100644
--- a/source/data_model/cxx/source/array/different_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/value.cpp
@@ -77,7 +77,7 @@ namespace lue::data_model::different_shape {
         for (Index object_idx = 0, shape_idx = 0; object_idx < nr_objects; ++object_idx, shape_idx += rank)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-            expand_core(ids[object_idx], hdf5::Shape{shapes[shape_idx], shapes[shape_idx + 1]});
+            expand_core(ids[object_idx], hdf5::Shape(shapes + shape_idx, shapes + shape_idx + rank));
         }
 
         _nr_objects += nr_objects;
-- 
2.43.0


From 6730c41935607e62fff01eaf356f0373c2192546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:07 +0000
Subject: [PATCH 11/15] fix: values per time location are opened with the
 memory datatype of the value

---
 .../cxx/source/array/same_shape/variable_shape/value.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
index 4c50fe0..b0be844 100644
--- a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
+++ b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
@@ -68,7 +68,7 @@ namespace lue::data_model::same_shape::variable_shape {
     {
         std::string const name{std::to_string(idx)};
 
-        return same_shape::Value{*this, name};
+        return same_shape::Value{*this, name, memory_datatype()};
     }
 
 
-- 
2.43.0


From 02182ad94b984ac36c77555324bfca65f6907362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:04 +0000
Subject: [PATCH 12/15] fix: include GDAL's configuration in raster_band.hpp

Without it, whether the 64-bit specialisations for no-data values exist depended on the
order in which headers are included, and comparing rasters refused 8-bit signed and 64-bit
data types GDAL does support.
---
 source/data_model/gdal/include/lue/gdal/raster_band.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/data_model/gdal/include/lue/gdal/raster_band.hpp b/source/data_model/gdal/include/lue/gdal/raster_band.hpp
index cd4f050..f78615b 100644
--- a/source/data_model/gdal/include/lue/gdal/raster_band.hpp
+++ b/source/data_model/gdal/include/lue/gdal/raster_band.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include "lue/gdal/configure.hpp"
 #include "lue/gdal/define.hpp"
 #include "lue/gdal/export.hpp"
 #include <gdal_priv.h>
-- 
2.43.0


From 8e885d0da6e3b328a062506c4a31ee52652a92e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:04 +0000
Subject: [PATCH 13/15] fix: report failure to set the geo-transform of a GDAL
 dataset

---
 source/data_model/gdal/source/dataset.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/data_model/gdal/source/dataset.cpp b/source/data_model/gdal/source/dataset.cpp
index c952766..937ff9f 100644
--- a/source/data_model/gdal/source/dataset.cpp
+++ b/source/data_model/gdal/source/dataset.cpp
@@ -344,13 +344,19 @@ namespace lue::gdal {
 
     /*!
         @brief      Set the transformation information
+        @exception  std::runtime_error In case the information cannot be set
         @sa         geo_transform
     */
     auto set_geo_transform(GDALDataset& dataset, GeoTransform const& geo_transform) -> void
     {
         // For some reason, GDAL wants a non-const pointer...
         // NOLINTNEXTLINE(cppcoreguidelines-pro-type-const-cast)
-        dataset.SetGeoTransform(const_cast<Coordinate*>(geo_transform.data()));
+        CPLErr const status = dataset.SetGeoTransform(const_cast<Coordinate*>(geo_transform.data()));
+
+        if (status != CE_None)
+        {
+            throw std::runtime_error("Cannot set transformation information of GDAL dataset");
+        }
     }
 
 }  // namespace lue::gdal
-- 
2.43.0


From dc08d97ebd7c06d0017a463e74230eac8297076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:55 +0000
Subject: [PATCH 14/15] fix: compare all cells of GDAL rasters, whatever their
 blocks

The number of valid cells was obtained for the transposed block, the first cells of a block
at the edge of the raster were compared instead of the ones within the raster, both bands
were assumed to have the same blocks, blocks larger than the raster ended the program, and
bands were assumed to have the data type of the first one.
---
 .../gdal/include/lue/gdal/raster.hpp          |  3 +++
 .../gdal/source/compare_rasters.cpp           | 22 +++++++++++++------
 source/data_model/gdal/source/raster.cpp      |  7 ++++++
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/source/data_model/gdal/include/lue/gdal/raster.hpp b/source/data_model/gdal/include/lue/gdal/raster.hpp
index fc9a267..f5001cd 100644
--- a/source/data_model/gdal/include/lue/gdal/raster.hpp
+++ b/source/data_model/gdal/include/lue/gdal/raster.hpp
@@ -67,6 +67,9 @@ namespace lue::gdal {
 
                     auto read(void* buffer) -> void;
 
+                    auto read(Offset const& offset, Shape const& shape, GDALDataType data_type, void* buffer)
+                        -> void;
+
                     auto write(void* buffer) -> void;
 
                     auto write(Offset const& offset, Shape const& shape, GDALDataType data_type, void* buffer)
diff --git a/source/data_model/gdal/source/compare_rasters.cpp b/source/data_model/gdal/source/compare_rasters.cpp
index 7664110..2120da6 100644
--- a/source/data_model/gdal/source/compare_rasters.cpp
+++ b/source/data_model/gdal/source/compare_rasters.cpp
@@ -1,8 +1,10 @@
 #include "lue/gdal/compare_rasters.hpp"
 #include "lue/gdal/data_type.hpp"
 #include "lue/gdal/raster.hpp"
+#include "lue/gdal/type_traits.hpp"
 #include "lue/define.hpp"
 #include "lue/string.hpp"
+#include <algorithm>
 #include <cassert>
 #include <format>
 
@@ -63,9 +65,13 @@ namespace lue::gdal {
             };
 
 
-            // Read blocks of data and compare the values
+            // Read blocks of data and compare the values. The natural blocks of both bands can
+            // differ and can extend beyond the raster. Only the cells that are part of the
+            // raster are read.
             auto const shape{band1.shape()};
-            auto const block_shape{band1.block_shape()};
+            auto const natural_block_shape{band1.block_shape()};
+            Shape const block_shape{
+                std::min(natural_block_shape[0], shape[0]), std::min(natural_block_shape[1], shape[1])};
             Blocks const blocks{shape, block_shape};
 
             std::vector<Element> values1(nr_elements(block_shape));
@@ -78,10 +84,12 @@ namespace lue::gdal {
             {
                 for (gdal::Count block_x = 0; block_x < nr_blocks_x && !different_values_found; ++block_x)
                 {
-                    auto const nr_valid_cells = nr_elements(blocks.shape_in_valid_cells({block_x, block_y}));
+                    Offset const cell_offset{block_y * block_shape[0], block_x * block_shape[1]};
+                    auto const shape_in_valid_cells = blocks.shape_in_valid_cells({block_y, block_x});
+                    auto const nr_valid_cells = nr_elements(shape_in_valid_cells);
 
-                    band1.read_block({block_y, block_x}, values1.data());
-                    band2.read_block({block_y, block_x}, values2.data());
+                    band1.read(cell_offset, shape_in_valid_cells, data_type_v<Element>, values1.data());
+                    band2.read(cell_offset, shape_in_valid_cells, data_type_v<Element>, values2.data());
 
                     bool values_are_equal = compare_elements(values1, values2, nr_valid_cells);
 
@@ -264,7 +272,7 @@ namespace lue::gdal {
                 auto band1 = raster1.band(band_nr);
                 auto band2 = raster2.band(band_nr);
 
-                switch (data_type1)
+                switch (auto const band_data_type = band1.data_type(); band_data_type)
                 {
 #if LUE_GDAL_SUPPORTS_8BIT_UNSIGNED_INTEGERS
                     case GDT_UInt8:
@@ -327,7 +335,7 @@ namespace lue::gdal {
                     default:
                     {
                         differences.emplace_back(
-                            std::format("Unsupported GDAL data type: {}", as_string(data_type1)));
+                            std::format("Unsupported GDAL data type: {}", as_string(band_data_type)));
                     }
                 }
             }
diff --git a/source/data_model/gdal/source/raster.cpp b/source/data_model/gdal/source/raster.cpp
index 118525f..7ceaf97 100644
--- a/source/data_model/gdal/source/raster.cpp
+++ b/source/data_model/gdal/source/raster.cpp
@@ -58,6 +58,13 @@ namespace lue::gdal {
     }
 
 
+    auto Raster::Band::read(
+        Offset const& offset, Shape const& shape, GDALDataType const data_type, void* buffer) -> void
+    {
+        gdal::read(*_band_ptr, offset, shape, data_type, buffer);
+    }
+
+
     /*!
         @sa         gdal::write
     */
-- 
2.43.0


From 16224d58d28415a53eecc5426ca187c5e7ef435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:20 +0000
Subject: [PATCH 15/15] fix: Scale shapes using exact roots, relative to the
 original shape

The first shape of a range must equal the shape the range starts with, but
(2, 8) resulted in (1, 4), and (10, 10, 10) in (9, 9, 9). Similarly, the array
shape of rank 3 for 1000 elements was (9, 9, 9).
---
 .../command/scalability/experiment/shape.py   | 44 +++++++++++++------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/source/quality_assurance/scalability/command/scalability/experiment/shape.py b/source/quality_assurance/scalability/command/scalability/experiment/shape.py
index 0f5a859..f0bff26 100644
--- a/source/quality_assurance/scalability/command/scalability/experiment/shape.py
+++ b/source/quality_assurance/scalability/command/scalability/experiment/shape.py
@@ -1,7 +1,26 @@
-import math
 from functools import reduce
 
 
+def integer_root(value, degree):
+    """
+    Return the largest integer for which the degree-th power is not larger
+    than the value passed in
+    """
+    assert value >= 0
+    assert degree > 0
+
+    # The floating point result can be off by one in both directions
+    root = int(round(value ** (1.0 / degree)))
+
+    while root**degree > value:
+        root -= 1
+
+    while (root + 1) ** degree <= value:
+        root += 1
+
+    return root
+
+
 def array_shape(memory_available, rank, nr_arrays, size_of_element, nr_nodes):
     """
     Determine a maximum array shape to use in scaling experiments, given the
@@ -19,11 +38,8 @@ def array_shape(memory_available, rank, nr_arrays, size_of_element, nr_nodes):
     assert size_of_element > 0
     assert nr_nodes > 0
 
-    nr_elements = float(nr_nodes * memory_available) / size_of_element
-    elements_per_array = nr_elements / nr_arrays
-    elements_per_dimension = math.pow(elements_per_array, 1.0 / rank)
-
-    elements_per_dimension = int(math.floor(elements_per_dimension))
+    elements_per_array = (nr_nodes * memory_available) // (size_of_element * nr_arrays)
+    elements_per_dimension = integer_root(elements_per_array, rank)
 
     return rank * (elements_per_dimension,)
 
@@ -116,15 +132,16 @@ def range_of_shapes(min_shape, max_nr_elements, multiplier, method):
     def nr_elements(shape):
         return reduce(lambda e1, e2: e1 * e2, shape)
 
-    def shape(nr_elements, normalized_shape):
-        rank = len(normalized_shape)
-
-        nr_elements_per_dimension = nr_elements ** (1.0 / rank)
+    def shape(nr_elements):
+        # Scale all extents of min_shape by the same factor, which is the
+        # rank-th root of nr_elements / sizes[0]. This is done using integers,
+        # because rounding would make shapes smaller than they should be.
+        rank = len(min_shape)
 
         return tuple(
             [
-                int(math.floor(nr_elements_per_dimension * extent))
-                for extent in normalized_shape
+                integer_root(extent**rank * nr_elements // sizes[0], rank)
+                for extent in min_shape
             ]
         )
 
@@ -152,8 +169,7 @@ def range_of_shapes(min_shape, max_nr_elements, multiplier, method):
         while multiplier * sizes[-1] <= max_nr_elements:
             sizes.append(multiplier * sizes[-1])
 
-    normalized_shape = tuple([float(extent) / max(min_shape) for extent in min_shape])
-    shapes = [shape(size, normalized_shape) for size in sizes]
+    shapes = [shape(size) for size in sizes]
 
     assert len(shapes) == 0 or nr_elements(shapes[-1]) <= max_nr_elements, (
         "{}, {}".format(shapes, max_nr_elements)
-- 
2.43.0

