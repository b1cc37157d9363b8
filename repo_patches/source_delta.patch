From fc65c35cc00c76980997f9de4a16feee731effdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 01/49] fix: parallel: last slice of a range that does not
 start at zero

---
 include/utils/parallel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/parallel.hpp b/include/utils/parallel.hpp
index 5320ffe..ea4a8ad 100644
--- a/include/utils/parallel.hpp
+++ b/include/utils/parallel.hpp
@@ -62,7 +62,7 @@ namespace ceras
                 threads.emplace_back( std::thread{ job_slice, first, last } );
             }
 
-            job_slice( tasks_per_thread*(total_cores-1), dim_last );
+            job_slice( tasks_per_thread*(total_cores-1) + dim_first, dim_last );
 
             for ( auto& th : threads )
                 th.join();
-- 
2.43.0


From 5482a32246601d36d49aedc7e0d512933ef6f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 02/49] fix: session: save weights with enough digits to
 restore them exactly

---
 include/session.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/session.hpp b/include/session.hpp
index 3f8c609..812a06f 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -124,6 +124,9 @@ namespace ceras
             std::ofstream ofs{ file_path };
             better_assert( ofs.good(), "failed to open file ", file_path );
 
+            // enough digits to restore exactly the same values
+            ofs.precision( std::numeric_limits<typename tensor_type::value_type>::max_digits10 );
+
             // save id
             for ( auto const& [id, v] : variables_ )
             {
-- 
2.43.0


From 07d971a00460ba73b8e9f165ef19381a8a395ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 03/49] fix: session: a failed or interrupted save no longer
 destroys the previous file or passes silently

---
 include/session.hpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/session.hpp b/include/session.hpp
index 812a06f..dac5e8e 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -82,21 +82,42 @@ namespace ceras
 
         void save( std::string const& file_path ) const
         {
-            // find a tmp file
+            // find tmp files
             std::string const& tmp_file_path =  file_path + std::string{".tmp"};
+            std::string const& new_file_path =  file_path + std::string{".new"};
 
             // save original to tmp file
             save_original( tmp_file_path );
 
-            // compress tmp file to file_path
+            // compress tmp file to new file
+            bool success = false;
             {
                 std::ifstream ifs{ tmp_file_path, std::ios_base::binary };
-                std::ofstream ofs( file_path, std::ios_base::binary );
-                lzw::compress( ifs, ofs );
+                std::ofstream ofs( new_file_path, std::ios_base::binary );
+                if ( ifs.good() && ofs.good() )
+                {
+                    lzw::compress( ifs, ofs );
+                    ofs.close();
+                    success = ofs.good() && !ifs.bad();
+                }
             }
 
             // remove original
             std::remove( tmp_file_path.c_str() );
+
+            // replace file_path, only after everything has been written
+            if ( success )
+            {
+                std::error_code error;
+                std::filesystem::rename( new_file_path, file_path, error );
+                success = !error;
+            }
+
+            if ( !success )
+            {
+                std::remove( new_file_path.c_str() );
+                throw std::runtime_error( "session::save: failed to write file " + file_path );
+            }
         }
 
         void restore( std::string const& file_path )
@@ -141,6 +162,11 @@ namespace ceras
             }
 
             ofs.close();
+            if ( !ofs.good() )
+            {
+                std::remove( file_path.c_str() );
+                throw std::runtime_error( "session::save: failed to write file " + file_path );
+            }
         }
 
         void restore_original( std::string const& file_path )
-- 
2.43.0


From 3e9cc25fea698bb86b8bfca652a72044503adcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 04/49] fix: lzw: detect a stream cut inside a code and invalid
 codes at the begin of a dictionary

---
 include/utils/lzw.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/utils/lzw.hpp b/include/utils/lzw.hpp
index 4bb0607..fbf09d3 100644
--- a/include/utils/lzw.hpp
+++ b/include/utils/lzw.hpp
@@ -345,11 +345,12 @@ namespace lzw
             ///
             /// @brief Reads the code `k` with a binary width of `CodeReader::bits`.
             /// @param [out] k      code to be read
+            /// @param widened      the binary width has just been increased, which the writer does not do before `MetaCode::Eof`
             /// @return Whether or not the stream can be used for input.
             /// @retval true        the input stream can still be used
             /// @retval false       the input stream can no longer be used
             ///
-            bool read(CodeType& k)
+            bool read(CodeType& k, bool widened)
             {
                 // ready-made bit masks
                 static const std::array<unsigned long int, 9> masks { {0x00, 0x01, 0x03, 0x07, 0x0F, 0x1F, 0x3F, 0x7F, 0xFF} };
@@ -376,7 +377,10 @@ namespace lzw
                         break;
                     }
 
-                if (k == static_cast<CodeType>(MetaCode::Eof))
+                // with less than a whole code left this is no end-of-file metacode, but the end of a broken stream
+                bool const complete = is.good() || (widened && remaining_bits == 1);
+
+                if (complete && k == static_cast<CodeType>(MetaCode::Eof))
                 {
                     feofmc = true;
                     return false;
@@ -524,19 +528,28 @@ namespace lzw
             {
                 reset_dictionary();
                 cr.reset_bits();
+
+                // the previous code must still exist in the new dictionary
+                if (i >= dictionary.size())
+                {
+                    better_assert(false, "lzw::invalid compression code with i = ", i, " when resetting the dictionary");
+                    return -1;
+                }
             }
 
-            if (required_bits(dictionary.size()) > cr.get_bits())
+            bool const widened = required_bits(dictionary.size()) > cr.get_bits();
+
+            if (widened)
             {
                 cr.increase_bits();
             }
 
-            if (!cr.read(k))
+            if (!cr.read(k, widened))
             {
                 break;
             }
 
-            if (k > dictionary.size())
+            if (k > dictionary.size() || (k == dictionary.size() && i == globals::dms))
             {
                 better_assert(false, "lzw::invalid compression code with k = ", k, " but dictionary size ", dictionary.size());
                 return -1;
-- 
2.43.0


From 71d5766ee85ba09df0b7bb2bc94ff1a30391fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 05/49] fix: session: loading reports a file that cannot be
 unpacked or read completely

---
 include/session.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/session.hpp b/include/session.hpp
index dac5e8e..8979ca1 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -128,8 +128,15 @@ namespace ceras
             // uncompress tmp file
             {
                 std::ifstream ifs( file_path, std::ios_base::binary );
+                better_assert( ifs.good(), "failed to open file ", file_path );
                 std::ofstream ofs{ tmp_file_path, std::ios_base::binary };
-                lzw::decompress( ifs, ofs );
+                int const status = lzw::decompress( ifs, ofs );
+                ofs.close();
+                if ( 0 != status || !ofs.good() )
+                {
+                    std::remove( tmp_file_path.c_str() );
+                    throw std::runtime_error( "session::restore: failed to uncompress file " + file_path );
+                }
             }
 
             // restore original from tmp file to file_path
@@ -192,6 +199,7 @@ namespace ceras
                 auto [_id, _var] = *itor;
                 read_tensor( ifs, _var.data() );
             }
+            better_assert( ifs.good(), "failed to read file ", file_path );
 
             ifs.close();
         }
-- 
2.43.0


From 49744379aac21b9d25fd47a4645c92a6dd68ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 06/49] hook: lzw: dictionary size can be set for simulation
 (off by default)

---
 include/utils/lzw.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/utils/lzw.hpp b/include/utils/lzw.hpp
index fbf09d3..02335ea 100644
--- a/include/utils/lzw.hpp
+++ b/include/utils/lzw.hpp
@@ -25,7 +25,11 @@ namespace lzw
 
             /// Dictionary Maximum Size (when reached, the dictionary will be reset)
             //const CodeType dms {512 * 1024};
+#ifdef CERAS_SIM_LZW_DMS
+            const CodeType dms {CERAS_SIM_LZW_DMS}; // simulation only: makes the dictionary reset often
+#else
             const CodeType dms {1024 * 1024};
+#endif
 
         } // namespace globals
 
-- 
2.43.0


From 433a5e8f2675d9a4af407f934fd30dbc1da961bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 07/49] fix: tensor: text files keep all digits, and failed
 writes and cut files are reported

---
 include/tensor.tcc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 8f8e552..b0649c1 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1230,6 +1230,7 @@ namespace ceras
         {
             std::string cache;
             std::getline( __is, cache );
+            better_assert( __is.good(), "tensor::loadtxt: the data is cut short" ); // a complete line ends with a newline
             std::stringstream ss( cache );
             std::copy( std::istream_iterator< _Tp >( ss ), std::istream_iterator< _Tp >(), std::back_inserter( buff ) );
         }
@@ -1292,15 +1293,13 @@ namespace ceras
     {
         std::ofstream ofs{ file_name };
         typedef typename Tsor::value_type value_type;
-        if constexpr (std::is_same_v<value_type, float> )
-            ofs.precision( 8 );
-        else if constexpr (std::is_same_v<value_type, double> )
-            ofs.precision( 15 );
-        else if constexpr (std::is_same_v<value_type, long double> )
-            ofs.precision( 25 );
+        if constexpr (std::is_floating_point_v<value_type>)
+            ofs.precision( std::numeric_limits<value_type>::max_digits10 ); // enough digits to read exactly the same values
 
         write_tensor( ofs, tsor );
         ofs.close();
+        if ( !ofs.good() )
+            throw std::runtime_error( "save_tensor: failed to write file " + file_name );
     }
 
 
-- 
2.43.0


From 9e7b16d8e143d5ea71398d3d7095b03fb64c6d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 08/49] fix: dataset: truncated, oversized or impossible data
 files are reported

---
 include/dataset.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/dataset.hpp b/include/dataset.hpp
index 07f1abc..9908d2e 100644
--- a/include/dataset.hpp
+++ b/include/dataset.hpp
@@ -9,6 +9,17 @@
 namespace ceras::dataset
 {
 
+    namespace dataset_private
+    {
+        // check the number of items announced in an IDX file header against the size of the file
+        inline bool is_complete( std::vector<std::uint8_t> const& data, unsigned long offset, unsigned long bytes_per_item )
+        {
+            if ( data.size() < offset ) return false;
+            unsigned long const items = (static_cast<unsigned long>(data[4]) << 24) + (static_cast<unsigned long>(data[5]) << 16) + (static_cast<unsigned long>(data[6]) << 8) + data[7];
+            return data.size() - offset == items * bytes_per_item;
+        }
+    }
+
     namespace mnist
     {
         ///
@@ -44,6 +55,8 @@ namespace ceras::dataset
             auto const& extract_image = []( std::vector<std::uint8_t> const& image_data )
             {
                 unsigned long const offset = 16;
+                if ( !dataset_private::is_complete( image_data, offset, 28*28 ) )
+                    throw std::runtime_error( "Invalid image data in the dataset." );
                 unsigned long const samples = (image_data.size()-offset) / (28*28);
                 tensor<std::uint8_t> ans{ {samples, 28UL, 28UL} };
                 std::copy( image_data.begin()+offset, image_data.end(), ans.data() );
@@ -53,6 +66,8 @@ namespace ceras::dataset
             auto const& extract_label = []( std::vector<std::uint8_t> const& label_data )
             {
                 unsigned long const offset = 8;
+                if ( !dataset_private::is_complete( label_data, offset, 1 ) || std::any_of( label_data.begin()+offset, label_data.end(), []( std::uint8_t label ){ return label > 9; } ) )
+                    throw std::runtime_error( "Invalid label data in the dataset." );
                 unsigned long const samples = label_data.size() - offset;
                 auto ans = zeros<std::uint8_t>({samples, 10});
                 auto ans_2d = matrix_view<std::uint8_t>{ ans.data(), samples, 10 };
@@ -115,6 +130,8 @@ namespace ceras::dataset
             auto const& extract_image = []( std::vector<std::uint8_t> const& image_data )
             {
                 unsigned long const offset = 16;
+                if ( !dataset_private::is_complete( image_data, offset, 28*28 ) )
+                    throw std::runtime_error( "Invalid image data in the dataset." );
                 unsigned long const samples = (image_data.size()-offset) / (28*28);
                 tensor<std::uint8_t> ans{ {samples, 28UL, 28UL} };
                 std::copy( image_data.begin()+offset, image_data.end(), ans.data() );
@@ -124,6 +141,8 @@ namespace ceras::dataset
             auto const& extract_label = []( std::vector<std::uint8_t> const& label_data )
             {
                 unsigned long const offset = 8;
+                if ( !dataset_private::is_complete( label_data, offset, 1 ) || std::any_of( label_data.begin()+offset, label_data.end(), []( std::uint8_t label ){ return label > 9; } ) )
+                    throw std::runtime_error( "Invalid label data in the dataset." );
                 unsigned long const samples = label_data.size() - offset;
                 auto ans = zeros<std::uint8_t>({samples, 10});
                 auto ans_2d = matrix_view<std::uint8_t>{ ans.data(), samples, 10 };
-- 
2.43.0


From 70e57432ce8e8ede9e76958304bf65a7d51c3301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 09/49] fix: cached_allocator: reclaimed memory is no longer
 handed out or released again

---
 include/utils/cached_allocator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utils/cached_allocator.hpp b/include/utils/cached_allocator.hpp
index d9be9a3..3ba86ec 100644
--- a/include/utils/cached_allocator.hpp
+++ b/include/utils/cached_allocator.hpp
@@ -104,6 +104,7 @@ namespace ceras
                 std::allocator<std::byte> alloc;
                 for ( auto& [size, address] : reserved_memory )
                     alloc.deallocate( address, size );
+                reserved_memory.clear();
 
                 return true;
             }
-- 
2.43.0


From 516fcfaa8ff5d532accf338844c48e4a0601f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 10/49] fix: tqdm: bar size without a terminal or on a narrow
 one

---
 include/utils/tqdm.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/utils/tqdm.hpp b/include/utils/tqdm.hpp
index 00ab065..07ebf6f 100644
--- a/include/utils/tqdm.hpp
+++ b/include/utils/tqdm.hpp
@@ -44,7 +44,8 @@ namespace dm_details
         else
         {
             winsize w;
-            ioctl(0, 0x5413, &w); // 0x5413 is translated from macro 'TIOCGWINSZ'
+            if ( 0 != ioctl(0, 0x5413, &w) ) // 0x5413 is translated from macro 'TIOCGWINSZ'
+                return 80; // not a terminal
             return w.ws_col;
         }
     }
@@ -194,7 +195,7 @@ namespace tq
         std::ostream* os_{&std::cerr};
 
         //index bar_size_{100};
-        index bar_size_{ dm_details::get_terminal_width()-40 };
+        index bar_size_{ std::max( dm_details::get_terminal_width()-40, 0 ) };
         //index bar_size_{ dm_details::get_terminal_width() };
         index term_cols_{1};
 
-- 
2.43.0


From 6e9f48dbb0a3dcd1675e8a7ffb11cfd30489bac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 11/49] fix: vector: a resize that runs out of memory no longer
 leaves a size without storage

---
 include/utils/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/vector.hpp b/include/utils/vector.hpp
index 4cec322..1f36e48 100644
--- a/include/utils/vector.hpp
+++ b/include/utils/vector.hpp
@@ -95,9 +95,9 @@ namespace ceras
 
             if ( size != 0 )
             {
-                size_ = size;
                 allocator_type alloc;
-                data_ = alloc.allocate( size_ );
+                data_ = alloc.allocate( size ); // may throw, the vector stays empty in that case
+                size_ = size;
             }
         }
 
-- 
2.43.0


From b37d61e10fa87f1332233100171f12a8968c872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 12/49] fix: adding and subtracting tensors leaves the operands
 unchanged

add() and minus() worked in place on the elements of the left operand when no
broadcasting was needed, because tensors share their elements when copied.
---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index b0649c1..a0fbf59 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -578,7 +578,7 @@ namespace ceras
     Tsor add( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
         auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
-        auto llhs = broadcast_tensor( lhs, broadcasted_shape );
+        auto llhs = broadcast_tensor( lhs, broadcasted_shape ).deep_copy(); // the broadcasted tensor might share its elements with lhs
         auto const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
 
         for_each( llhs.begin(), llhs.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x += y; } );
@@ -609,7 +609,7 @@ namespace ceras
     Tsor minus( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
         auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
-        auto llhs = broadcast_tensor( lhs, broadcasted_shape );
+        auto llhs = broadcast_tensor( lhs, broadcasted_shape ).deep_copy(); // the broadcasted tensor might share its elements with lhs
         auto const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
 
         for_each( llhs.begin(), llhs.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x -= y; } );
-- 
2.43.0


From 23fcdc68785b2caea526207bbbc2ce8586ad8649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 13/49] fix: backward passes of activations and clip do not
 overwrite the incoming gradient

Copying a tensor shares its elements; the gradient handed in (the caller's own
tensor, or one that another operation still uses) was modified.
---
 include/activation.hpp | 16 ++++++++--------
 include/operation.hpp  |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index c10ae63..8b0739f 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -108,7 +108,7 @@ namespace ceras
                                     []<Tensor Tsor>( Tsor const&, Tsor const& output, Tsor const& grad ) noexcept
                                     {
                                         better_assert( !has_nan( grad ), "backprop: upcoming gradient for activation softmax contains NaN" );
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ) { a *= o * ( typename Tsor::value_type{1} - o ); } );
                                         return ans;
                                     },
@@ -303,7 +303,7 @@ namespace ceras
                     better_assert( output.size(), "relu::backward: empty output." );
                     better_assert( grad.size(), "relu::backward: empty grad." );
                     typedef typename Tsor::value_type value_type;
-                    Tsor ans = grad; // shallow copy
+                    Tsor ans = grad.deep_copy();
                     //for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){ if ( x <= value_type{0} ) v = value_type{0}; } );
                     for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){  v *= ( x > value_type{0} ); } );
                     return ans;
@@ -356,7 +356,7 @@ namespace ceras
                 return []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                 {
                     typedef typename Tsor::value_type value_type;
-                    Tsor ans = grad; // shallow copy
+                    Tsor ans = grad.deep_copy();
                     //const typename Tsor::value_type zero{0};
                     for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){ if ( (x <= value_type{0}) || (x >= value_type{6}) ) v = value_type{0}; } );
                     return ans;
@@ -414,7 +414,7 @@ namespace ceras
                                         [factor]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                         {
                                             typedef typename Tsor::value_type value_type;
-                                            Tsor ans = grad;// OK for shallow copy
+                                            Tsor ans = grad.deep_copy();
                                             for_each( ans.begin(), ans.end(), input.begin(), [factor]( value_type& v_back, value_type const v_in ){ v_back = (v_in > value_type{0}) ? v_back : factor*v_back; } );
                                             return ans;
                                         },
@@ -468,7 +468,7 @@ namespace ceras
                                         [alpha]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                         {
                                             typedef typename Tsor::value_type value_type;
-                                            Tsor ans = grad;// OK for shallow copy
+                                            Tsor ans = grad.deep_copy();
                                             for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : alpha*std::exp(v_back); } );
                                             return ans;
                                         },
@@ -506,7 +506,7 @@ namespace ceras
                                     },
                                     []<Tensor Tsor>( Tsor const&, Tsor const& output, Tsor const& grad ) noexcept
                                     {
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ){ a *= o; } );
                                         return ans;
                                     },
@@ -542,7 +542,7 @@ namespace ceras
                                     []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         typedef typename Tsor::value_type value_type;
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), input.begin(), []( auto& a, auto x ) { a = ((x > value_type{1}) || (x < value_type{-1})) ? value_type{0} : (a / value_type{2}); } );
                                         return ans;
                                     },
@@ -600,7 +600,7 @@ namespace ceras
                                     [_dgelu]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         //typedef typename Tsor::value_type value_type;
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), [&_dgelu]( auto& x ) {  x = _dgelu(x); } );
                                         return ans;
                                     },
diff --git a/include/operation.hpp b/include/operation.hpp
index 4734758..d135688 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1092,7 +1092,7 @@ namespace ceras
                                         {
                                             better_assert( !has_nan( grad ), "input gradient for operator clip contains NaN!" );
                                             const typename Tsor::value_type zero{0};
-                                            Tsor ans = grad;
+                                            Tsor ans = grad.deep_copy();
                                             for ( auto idx : range( input.size() ) )
                                                 ans[idx] = (input[idx] < lower) ? zero :
                                                            (input[idx] > upper) ? zero :
-- 
2.43.0


From 167494ce97e7fcb2d1e09c0984b3554a6e302738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 14/49] fix: the gradient of gelu depends on its input

The derivative was evaluated at the incoming gradient, so a gelu used in
several places did not receive the sum of the contributions.
---
 include/activation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 8b0739f..9ac83c5 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -597,11 +597,11 @@ namespace ceras
                                         ans.map([_gelu](auto& x) { x = _gelu(x); });
                                         return ans;
                                     },
-                                    [_dgelu]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
+                                    [_dgelu]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         //typedef typename Tsor::value_type value_type;
                                         Tsor ans = grad.deep_copy();
-                                        for_each( ans.begin(), ans.end(), [&_dgelu]( auto& x ) {  x = _dgelu(x); } );
+                                        for_each( ans.begin(), ans.end(), input.begin(), [&_dgelu]( auto& g, auto x ) {  g *= _dgelu(x); } );
                                         return ans;
                                     },
                                     "gelu"
-- 
2.43.0


From 62c2126efc0ba2d13d6ae30c6ececeb7d23b4080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 15/49] fix: all copies of an expression share the data of its
 forward pass

---
 include/operation.hpp | 70 +++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index d135688..e7920cd 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -55,6 +55,8 @@ namespace ceras
         enable_id<unary_operator<Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>, "Unary_Operator">,
         enable_unary_serializer<unary_operator<Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer> >
     {
+        typedef decltype( std::declval<Forward_Action>()( std::declval<Operator>().forward() ) ) tensor_type;
+
         struct unary_operator_state
         {
             Operator op_;
@@ -62,34 +64,31 @@ namespace ceras
             Backward_Action backward_action_;
             Output_Shape_Calculator output_shape_calculator_;
             Serializer serializer_;
+            tensor_type input_data_; // shared by all copies of this expression, as the forward pass might take place in another copy
+            tensor_type output_data_;
         };
         std::shared_ptr<unary_operator_state> state_;
 
-        typedef decltype( std::declval<Forward_Action>()( std::declval<Operator>().forward() ) ) tensor_type;
-
-        tensor_type input_data_;
-        tensor_type output_data_;
-
         unary_operator( Operator const& op, Forward_Action const& forward_action, Backward_Action const& backward_action, Output_Shape_Calculator const& output_shape_calculator, Serializer const& serializer ) noexcept : state_{ std::make_shared<unary_operator_state>( op, forward_action, backward_action, output_shape_calculator, serializer ) } {}
 
         auto forward()
         {
             auto& sess = get_default_session<tensor_type>();
-            output_data_= sess.query_forward_cache( (*this).id() );
+            state_->output_data_= sess.query_forward_cache( (*this).id() );
 
-            if ( output_data_.empty() )
+            if ( state_->output_data_.empty() )
             {
-                input_data_ = op().forward();
-                output_data_ = forward_action()( input_data_ );
-                sess.update_forward_cache( (*this).id(), output_data_ );
+                state_->input_data_ = op().forward();
+                state_->output_data_ = forward_action()( state_->input_data_ );
+                sess.update_forward_cache( (*this).id(), state_->output_data_ );
             }
 
-            return output_data_;
+            return state_->output_data_;
         }
 
         void backward( tensor_type const& grad )
         {
-            auto const& current_gradient = backward_action()( input_data_, output_data_, grad );
+            auto const& current_gradient = backward_action()( state_->input_data_, state_->output_data_, grad );
             op().backward( current_gradient );
         }
 
@@ -106,8 +105,8 @@ namespace ceras
         Backward_Action const& backward_action() const { return state_->backward_action_; }
         Output_Shape_Calculator const& output_shape_calculator() const { return state_->output_shape_calculator_; }
         Serializer const& serializer() const { return state_->serializer_; }
-        tensor_type output_data() { return output_data_; }
-        tensor_type input_data() { return input_data_; }
+        tensor_type output_data() { return state_->output_data_; }
+        tensor_type input_data() { return state_->input_data_; }
 
         Operator& op() { return state_->op_; }
         Forward_Action& forward_action() { return state_->forward_action_; }
@@ -145,6 +144,8 @@ namespace ceras
         enable_id<binary_operator<Lhs_Operator, Rhs_Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>, "Binary Operator">,
         enable_binary_serializer<binary_operator<Lhs_Operator, Rhs_Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>>
     {
+        typedef typename tensor_deduction<Lhs_Operator, Rhs_Operator>::tensor_type tensor_type; // defined in value.hpp
+
         struct binary_operator_state
         {
             Lhs_Operator lhs_op_;
@@ -153,47 +154,44 @@ namespace ceras
             Backward_Action backward_action_;
             Output_Shape_Calculator output_shape_calculator_;
             Serializer serializer_;
+            tensor_type lhs_input_data_; // shared by all copies of this expression, as the forward pass might take place in another copy
+            tensor_type rhs_input_data_;
+            tensor_type output_data_;
         };
         std::shared_ptr<binary_operator_state> state_;
 
-        typedef typename tensor_deduction<Lhs_Operator, Rhs_Operator>::tensor_type tensor_type; // defined in value.hpp
-
-        tensor_type lhs_input_data_;
-        tensor_type rhs_input_data_;
-        tensor_type output_data_;
-
         binary_operator( Lhs_Operator const& lhs_op, Rhs_Operator const& rhs_op, Forward_Action const& forward_action, Backward_Action const& backward_action, Output_Shape_Calculator const& output_shape_calculator, Serializer const& serializer) noexcept :
             state_{ std::make_shared<binary_operator_state>(lhs_op, rhs_op, forward_action, backward_action, output_shape_calculator, serializer) } {}
 
         auto forward()
         {
             auto& sess = get_default_session<tensor_type>();
-            output_data_= sess.query_forward_cache( (*this).id() );
+            state_->output_data_= sess.query_forward_cache( (*this).id() );
 
-            if ( !output_data_.empty() )
-                return output_data_;
+            if ( !state_->output_data_.empty() )
+                return state_->output_data_;
 
             static_assert( !(is_value_v<Lhs_Operator> && is_value_v<Rhs_Operator>), "Not valid for two values" );
 
             if constexpr ( is_value_v<Lhs_Operator> )
             {
-                rhs_input_data_ = rhs_op().forward();
-                lhs_input_data_ = lhs_op().forward( rhs_input_data_ );
+                state_->rhs_input_data_ = rhs_op().forward();
+                state_->lhs_input_data_ = lhs_op().forward( state_->rhs_input_data_ );
             }
             else if constexpr ( is_value_v<Rhs_Operator> )
             {
-                lhs_input_data_ = lhs_op().forward();
-                rhs_input_data_ = rhs_op().forward( lhs_input_data_ );
+                state_->lhs_input_data_ = lhs_op().forward();
+                state_->rhs_input_data_ = rhs_op().forward( state_->lhs_input_data_ );
             }
             else
             {
-                lhs_input_data_ = lhs_op().forward();
-                rhs_input_data_ = rhs_op().forward();
+                state_->lhs_input_data_ = lhs_op().forward();
+                state_->rhs_input_data_ = rhs_op().forward();
             }
 
-            output_data_ = forward_action()( lhs_input_data_, rhs_input_data_ );
-            sess.update_forward_cache( (*this).id(), output_data_ );
-            return output_data_;
+            state_->output_data_ = forward_action()( state_->lhs_input_data_, state_->rhs_input_data_ );
+            sess.update_forward_cache( (*this).id(), state_->output_data_ );
+            return state_->output_data_;
         }
 
         ///
@@ -201,7 +199,7 @@ namespace ceras
         ///
         void backward( tensor_type const& grad )
         {
-            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( lhs_input_data_, rhs_input_data_, output_data_, grad );
+            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( state_->lhs_input_data_, state_->rhs_input_data_, state_->output_data_, grad );
             lhs_op().backward( current_gradient_lhs );
             rhs_op().backward( current_gradient_rhs );
         }
@@ -234,9 +232,9 @@ namespace ceras
         Output_Shape_Calculator& output_shape_calculator() { return state_->output_shape_calculator_; }
         Serializer& serializer() { return state_->serializer_; }
 
-        tensor_type output_data() { return output_data_; }
-        tensor_type lhs_input_data() { return lhs_input_data_; }
-        tensor_type rhs_input_data() { return rhs_input_data_; }
+        tensor_type output_data() { return state_->output_data_; }
+        tensor_type lhs_input_data() { return state_->lhs_input_data_; }
+        tensor_type rhs_input_data() { return state_->rhs_input_data_; }
     }; // struct binary_operator
 
     template< typename Forward_Action, typename Backward_Action, typename Output_Shape_Calculator= identity_output_shape_calculator, typename Serializer = default_binary_expression_serializer >
-- 
2.43.0


From d6dd2309c5d0f54b06ea3ac30ce6767c015a4cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 16/49] fix: operators applied to several expressions do not
 share their buffers

---
 include/operation.hpp | 147 +++++++++++++++++++++---------------------
 1 file changed, 73 insertions(+), 74 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index e7920cd..60b3ccb 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -461,11 +461,11 @@ namespace ceras
     ///
     auto inline broadcast( std::vector<unsigned long> const& new_shape ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [new_shape, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [new_shape]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [new_shape, forward_cache]<Tensor Tsor>( Tsor const& input )noexcept
@@ -1326,11 +1326,11 @@ namespace ceras
     ///
     auto inline argmax( unsigned long axis=0 ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -1527,10 +1527,9 @@ namespace ceras
     {
         if ( col_kernel == (unsigned long)-1 ) col_kernel = row_kernel;
 
-        std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
-
-        auto img2col_forward = [s_index_record]<Tensor Tsor>
+        auto img2col_forward = []<Tensor Tsor>
         (
+            std::vector<std::uint32_t>& index_record, //32 bit should be enough for memory address offeset
             Tsor const& input_img, Tsor& output_col_mat,
             unsigned long kernel_row, unsigned long kernel_col,
             unsigned long padding_row, unsigned long padding_col,
@@ -1539,7 +1538,6 @@ namespace ceras
         ) noexcept
         {
             typedef typename Tsor::value_type value_type;
-            std::vector<std::uint32_t>& index_record = *s_index_record; //32 bit should be enough for memory address offeset
 
             std::vector<unsigned long> input_shape = input_img.shape();
             better_assert( input_shape.size() == 4, "Expecting a 4D tensor." );
@@ -1604,13 +1602,12 @@ namespace ceras
             }
         };
 
-        auto img2col_backward = [s_index_record]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad, Tsor& ans ) noexcept
+        auto img2col_backward = []<Tensor Tsor>( std::vector<std::uint32_t> const& index_record, Tsor const& input, Tsor const&, Tsor const& grad, Tsor& ans ) noexcept
         {
             typedef typename Tsor::value_type value_type;
             ans.resize( input.shape() );
             std::fill( ans.begin(), ans.end(), value_type{0} );
 
-            std::vector<std::uint32_t>& index_record = *s_index_record; //32 bit should be enough for memory address offeset
             for ( auto idx : range( grad.size() ) )
             {
                 auto const index = index_record[idx];
@@ -1619,23 +1616,24 @@ namespace ceras
             }
         };
 
-        std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
-
-        return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward, output_cache, back_grad_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
+            std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const & tsor ) noexcept
                 {
                     Tsor& output = context_cast<Tsor>( output_cache );
-                    img2col_forward( tsor, output, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
+                    img2col_forward( *s_index_record, tsor, output, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
                     return Tsor{output};
                 },
                 [=]<Tensor Tsor>( Tsor const& input, Tsor const& output, Tsor const& grad ) noexcept
                 {
                     Tsor& back_grad = context_cast<Tsor>( back_grad_cache );
-                    img2col_backward( input, output, grad, back_grad );
+                    img2col_backward( *s_index_record, input, output, grad, back_grad );
                     return Tsor{back_grad};
                 },
                 "img2col",
@@ -1767,9 +1765,6 @@ namespace ceras
         std::string const& padding="valid"
     ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         auto shape_calculator = [=]( std::vector<unsigned long> const& old_shape )
         {
             std::vector<unsigned long> new_shape = old_shape;
@@ -1785,6 +1780,9 @@ namespace ceras
 
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -1883,12 +1881,12 @@ namespace ceras
         better_assert( factor < T{1}, "Expecting drop out rate less than 1, but got factor = ", factor );
         better_assert( factor > T{0}, "Expecting drop out rate greater than 0, but got factor = ", factor );
 
-        std::shared_ptr<std::any> mask = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [factor, mask, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [factor]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> mask = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [factor, mask, forward_cache]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -2046,12 +2044,12 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting max_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> mask = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, mask, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> mask = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 max_pooling_2d_context{}.make_forward()( stride, mask, forward_cache ),
@@ -2071,11 +2069,11 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting average_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [stride, forward_cache]<Tensor Tsor>( Tsor const& input ) noexcept // [BS, R, C, CH] --> [BS, R/s, C/s, CH]
@@ -2211,11 +2209,11 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting up_sampling_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 up_sampling_2d_context{}.make_forward()( stride, forward_cache ),
@@ -2244,13 +2242,14 @@ namespace ceras
     {
         std::shared_ptr<std::any> global_average_cache = std::make_shared<std::any>();
         std::shared_ptr<std::any> global_variance_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> average_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> variance_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
 
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> average_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> variance_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -2843,11 +2842,11 @@ namespace ceras
         better_assert( right >= 1, "Expecting zero_padding_2d right padding no less than 1, but got ", right );
 
         // to avoid re-allocating memory for tensors
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [padding, top, bottom, left, right, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [padding, top, bottom, left, right]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 zero_padding_2d_context{}.make_forward()( top, bottom, left, right, forward_cache ),
@@ -2968,11 +2967,11 @@ namespace ceras
         better_assert( right >= 1, "Expecting cropping_2d right padding no less than 1, but got ", right );
 
         // to avoid re-allocating memory for tensors
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [padding, top, bottom, left, right, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [padding, top, bottom, left, right]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 cropping_2d_context{}.make_forward()( top, bottom, left, right, forward_cache ),
@@ -3085,12 +3084,12 @@ namespace ceras
 
     inline auto sliding_2d( unsigned long pixels ) noexcept
     {
-        std::shared_ptr<std::any> shift_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> shift_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return cropping_2d( {pixels,} )( detailed_sliding_2d(pixels, shift_cache, forward_cache, backward_cache)( zero_padding_2d( {pixels,} )( ex ) )  );
         };
     }
@@ -3184,11 +3183,11 @@ namespace ceras
     {
         better_assert( repeats > 0, "repeat: repeats can not be zero." );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [repeats, axis, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [repeats, axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 repeat_context{}.make_forward()( repeats, axis, forward_cache ),
@@ -3316,12 +3315,12 @@ namespace ceras
     ///
     inline auto reduce_min( unsigned long axis=-1 ) noexcept
     {
-        std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, index_cache, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 reduce_min_context{}.make_forward()( axis, forward_cache, index_cache ),
@@ -3451,12 +3450,12 @@ namespace ceras
     ///
     inline auto reduce_max( unsigned long axis=-1 ) noexcept
     {
-        std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, index_cache, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 reduce_max_context{}.make_forward()( axis, forward_cache, index_cache ),
@@ -3568,11 +3567,11 @@ namespace ceras
     ///
     inline auto reduce_sum( unsigned long axis ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 reduce_sum_context{}.make_forward()( axis, forward_cache ),
-- 
2.43.0


From 388c77c4e36d9d09735d1cc4e5c8241814ed9be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 17/49] fix: img2col follows every change of the shape of its
 input

---
 include/operation.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 60b3ccb..89f9ab5 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1530,6 +1530,7 @@ namespace ceras
         auto img2col_forward = []<Tensor Tsor>
         (
             std::vector<std::uint32_t>& index_record, //32 bit should be enough for memory address offeset
+            std::vector<unsigned long>& index_shape, // input shape the index record has been built for
             Tsor const& input_img, Tsor& output_col_mat,
             unsigned long kernel_row, unsigned long kernel_col,
             unsigned long padding_row, unsigned long padding_col,
@@ -1550,8 +1551,9 @@ namespace ceras
 
             output_col_mat.resize( {output_column_matrix_row, output_column_matrix_col} );
 
-            if ( index_record.size() != output_column_matrix_row * output_column_matrix_col ) // first-run?
+            if ( index_shape != input_shape ) // first-run?
             {
+                index_shape = input_shape;
                 index_record.resize( output_column_matrix_row * output_column_matrix_col );
 
                 for ( auto bs : range( BS ) )
@@ -1619,6 +1621,7 @@ namespace ceras
         return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward]<Expression Ex>( Ex const& ex ) noexcept
         {
             std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
+            std::shared_ptr<std::vector<unsigned long>> s_index_shape = std::make_shared<std::vector<unsigned long>>();
             std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
             std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
 
@@ -1627,7 +1630,7 @@ namespace ceras
                 [=]<Tensor Tsor>( Tsor const & tsor ) noexcept
                 {
                     Tsor& output = context_cast<Tsor>( output_cache );
-                    img2col_forward( *s_index_record, tsor, output, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
+                    img2col_forward( *s_index_record, *s_index_shape, tsor, output, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
                     return Tsor{output};
                 },
                 [=]<Tensor Tsor>( Tsor const& input, Tsor const& output, Tsor const& grad ) noexcept
-- 
2.43.0


From 2e90ab2e86f2eb802d9180c74c0cd023eae04cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 18/49] fix: do not mix iterators of two temporary shapes in
 concatenate and repeat

---
 include/operation.hpp |  3 ++-
 include/tensor.tcc    | 11 +++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 89f9ab5..88c543e 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2411,7 +2411,8 @@ namespace ceras
 
                     // 2D view of grad
                     unsigned long const ax = (axe == (unsigned long)(-1)) ? grad.ndim()-1 : axe;
-                    unsigned long const g_col = std::accumulate( grad.shape().begin()+ax, grad.shape().end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
+                    std::vector<unsigned long> const& g_shape = grad.shape();
+                    unsigned long const g_col = std::accumulate( g_shape.begin()+ax, g_shape.end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
                     unsigned long const g_row = grad.size() / g_col;
                     view_2d<value_type> v_g{ grad.data(), g_row, g_col };
 
diff --git a/include/tensor.tcc b/include/tensor.tcc
index a0fbf59..88441d1 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -757,7 +757,8 @@ namespace ceras
 
             std::vector<unsigned long>  new_shape;
             new_shape.push_back( n );
-            std::copy( tsor.shape().begin(), tsor.shape().end(), std::back_inserter( new_shape ) );
+            std::vector<unsigned long> const& shape = tsor.shape();
+            std::copy( shape.begin(), shape.end(), std::back_inserter( new_shape ) );
             ans.reshape( new_shape );
         }
 
@@ -920,10 +921,12 @@ namespace ceras
         // axis alignment
         if ( lhs.ndim() > rhs.ndim() )
         {
-            unsigned long const dims_to_repeat = std::accumulate( lhs.shape().begin(), lhs.shape().begin()+lhs.ndim()-rhs.ndim(), 1UL, [](auto x, auto y ){ return x*y; } );
+            std::vector<unsigned long> const& lhs_shape = lhs.shape();
+            std::vector<unsigned long> const& rhs_shape = rhs.shape();
+            unsigned long const dims_to_repeat = std::accumulate( lhs_shape.begin(), lhs_shape.begin()+lhs.ndim()-rhs.ndim(), 1UL, [](auto x, auto y ){ return x*y; } );
             auto new_rhs = repeat( rhs, dims_to_repeat );
-            std::vector<unsigned long> new_shape{ lhs.shape().begin(), lhs.shape().begin()+lhs.ndim()-rhs.ndim() };
-            std::copy( rhs.shape().begin(), rhs.shape().end(), std::back_inserter( new_shape ) );
+            std::vector<unsigned long> new_shape{ lhs_shape.begin(), lhs_shape.begin()+lhs.ndim()-rhs.ndim() };
+            std::copy( rhs_shape.begin(), rhs_shape.end(), std::back_inserter( new_shape ) );
             new_rhs.reshape( new_shape );
             return concatenate( lhs, new_rhs, axis );
         }
-- 
2.43.0


From 73e4985db94255809c3b48d255816827e1327d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 19/49] fix: pooling: every backward pass belongs to its own
 forward pass only, for sizes the stride does not divide as well

---
 include/operation.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 88c543e..020a98d 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1968,7 +1968,7 @@ namespace ceras
 
                         Tsor& mask__ = context_cast<Tsor>( mask );
                         mask__.resize( input.shape() );
-
+                        mask__.reset();
 
                         std::vector<unsigned long> shape = input.shape();
                         auto const[batch_size, row, col, channel] = std::make_tuple(shape[0], shape[1], shape[2], shape[3]);
@@ -2020,6 +2020,7 @@ namespace ceras
 
                         Tsor& ans = context_cast<Tsor>( backward_cache );
                         ans.resize( input.shape() );
+                        ans.reset();
 
                         view_4d<value_type> ta{ ans.data(), batch_size, row, col, channel };
 
@@ -2113,6 +2114,7 @@ namespace ceras
 
                     Tsor& ans = context_cast<Tsor>( backward_cache );
                     ans.resize( input.shape() );
+                    ans.reset();
 
                     view_4d<value_type> ta{ ans.data(), batch_size, row, col, channel };
 
@@ -2121,8 +2123,8 @@ namespace ceras
 
                     value_type const factor = value_type{1} / static_cast<value_type>(stride*stride);
                     for ( auto bs : range( batch_size ) )
-                        for ( auto r : range( row ) )
-                            for ( auto c : range( col ) )
+                        for ( auto r : range( (row/stride)*stride ) )
+                            for ( auto c : range( (col/stride)*stride ) )
                                 for ( auto ch : range( channel ) )
                                     ta[bs][r][c][ch] = factor * tg[bs][r/stride][c/stride][ch];
                     return ans;
-- 
2.43.0


From 013d9e8f234221a9eddd94a72f098b973351977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 20/49] fix: zero_padding_2d pads with zeros after a change of
 the input shape

---
 include/operation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index 020a98d..c8c5423 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2767,6 +2767,7 @@ namespace ceras
                         // 4D view of output tensor
                         Tsor& ans = context_cast<Tsor>( forward_cache );
                         ans.resize( {batch_size, top+row+bottom, left+col+right, channel} );
+                        ans.reset(); // the paddings move when the shape changes
                         view_4d<value_type> ta{ ans.data(), batch_size, top+row+bottom, left+col+right, channel };
 
                         for ( auto bs : range( batch_size ) )
-- 
2.43.0


From 36b9caaab8e5de5ff1b52e6292636df06caf9078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 21/49] fix: batch normalization: predicting before training
 does not disable the running statistics, and batch sizes might change

---
 include/operation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index c8c5423..2a2947e 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2274,8 +2274,7 @@ namespace ceras
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                     {
                         // fix for the special case when prediction is executed before the training, typically in a GAN
-                        Tsor& global_average_test = context_cast<Tsor>( global_average_cache );
-                        if ( global_average_test.empty() )
+                        if ( !(*global_average_cache).has_value() )
                             return input;
 
                         // normal case. i.e., the global_average_cache and global_variance_cache are not empty
@@ -2356,7 +2355,8 @@ namespace ceras
                     unsigned long const channels = *(shape.rbegin());
                     unsigned long const rest_dims = input.size() / channels;
 
-                    Tsor& ans = context_cast<Tsor>( backward_cache, zeros_like( input ) );
+                    Tsor& ans = context_cast<Tsor>( backward_cache );
+                    ans.resize( input.shape() ); // the batch size might change
                     view_2d<value_type> ans_{ans.data(), rest_dims, channels };
                     view_2d<value_type> grad_{grad.data(), rest_dims, channels };
                     for ( auto r : range( rest_dims ) )
-- 
2.43.0


From 70d9b706246b3c1784ba08c70f84046193294da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 22/49] fix: dropout: every training pass draws its own mask,
 and the gradient is scaled as the output

---
 include/operation.hpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 2a2947e..981251d 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1899,20 +1899,15 @@ namespace ceras
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return input;
 
-                    std::any& mask_ = *mask;
-                    // first run, initialize mask
-                    if ( !mask_.has_value() )
+                    Tsor& mask__ = context_cast<Tsor>( mask );
+                    // every training pass has its own mask
                     {
                         Tsor const random_tensor = random<value_type>( input.shape() );
-                        Tsor mask__{ input.shape() };
+                        mask__.resize( input.shape() );
                         for ( auto idx : range( input.size() ) )
-                            if ( random_tensor[ idx ] > factor )
-                                mask__[ idx ] = 1;
-                        mask_ = mask__; // initialize
+                            mask__[ idx ] = ( random_tensor[ idx ] > factor ) ? 1 : 0;
                     }
 
-                    Tsor& mask__ = std::any_cast<Tsor&>( mask_ );
-
                     Tsor& ans = context_cast<Tsor>( forward_cache );
                     ans.deep_copy( input );
 
@@ -1920,8 +1915,10 @@ namespace ceras
                         ans[idx] *= mask__[idx] / (value_type{1} - factor);
                     return ans;
                 },
-                [mask, backward_cache]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
+                [factor, mask, backward_cache]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
                 {
+                    typedef typename Tsor::value_type value_type;
+
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return grad;
 
@@ -1931,7 +1928,7 @@ namespace ceras
                     ans.deep_copy( grad );
 
                     for ( auto idx : range( grad.size() ) )
-                        ans[idx] *= mask__[idx];
+                        ans[idx] *= mask__[idx] / (value_type{1} - factor);
                     return ans;
                 },
                 "dropout",
-- 
2.43.0


From ba175a144184e89751eff0421f9bb2544d8052ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 23/49] fix: session: results do not share memory with weights,
 inputs or operator buffers

---
 include/session.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/session.hpp b/include/session.hpp
index 8979ca1..ad87ace 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -59,7 +59,10 @@ namespace ceras
         auto run( Operation& op )
         {
             clear_forward_cache();
-            return op.forward();
+            if constexpr ( is_tensor_v<std::remove_cvref_t<decltype(op.forward())>> )
+                return op.forward().deep_copy(); // the memory of the result is reused in the next run
+            else
+                return op.forward();
         }
 
         // register variables associated to the op to this session
-- 
2.43.0


From fbea52f5f9bd0f1580a0da68757e9b38090480d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 24/49] fix: variable: trainable flag and regularizer are
 shared by all copies of a variable

---
 include/optimizer.hpp | 12 +++++-----
 include/variable.hpp  | 56 ++++++++++++++++++++++---------------------
 2 files changed, 35 insertions(+), 33 deletions(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 2c2afa0..31da89e 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -49,7 +49,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -94,7 +94,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -145,7 +145,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -195,7 +195,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -270,7 +270,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -340,7 +340,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto& [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     //v.data() -= learning_rate_ * (v.gradient());
                     //
diff --git a/include/variable.hpp b/include/variable.hpp
index 37d4b55..a69cdc2 100644
--- a/include/variable.hpp
+++ b/include/variable.hpp
@@ -23,14 +23,6 @@ namespace ceras
     template< Tensor Tsor >
     ceras_private::session<Tsor>& get_default_session();
 
-    template< Tensor Tsor >
-    struct variable_state
-    {
-        Tsor data_;
-        Tsor gradient_;
-        std::vector<Tsor> contexts_;
-    };
-
     template< typename Float > requires std::floating_point<Float>
     struct regularizer
     {
@@ -42,6 +34,16 @@ namespace ceras
         constexpr regularizer( value_type l1=0.0, value_type l2=0.0, bool synchronized=false ) noexcept : l1_{l1}, l2_{l2}, synchronized_{synchronized} {}
     };
 
+    template< Tensor Tsor >
+    struct variable_state
+    {
+        Tsor data_;
+        Tsor gradient_;
+        std::vector<Tsor> contexts_;
+        regularizer<typename Tsor::value_type> regularizer_; // shared by all copies of a variable
+        bool trainable_;
+    };
+
     template< Tensor Tsor >
     struct variable : enable_id<variable<Tsor>, "Variable">
     {
@@ -49,14 +51,14 @@ namespace ceras
         typedef typename tensor_type::value_type value_type;
 
         std::shared_ptr<variable_state<tensor_type>> state_;
-        regularizer<value_type> regularizer_;
-        bool trainable_;
 
-        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}, regularizer_{l1, l2, true}, trainable_{trainable}
+        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}
         {
             (*this).state_ = std::make_shared<variable_state<tensor_type>>();
             (*((*this).state_)).data_ = data;
             (*((*this).state_)).gradient_ = tensor_type{ data.shape() };
+            (*((*this).state_)).regularizer_ = regularizer<value_type>{ l1, l2, true };
+            (*((*this).state_)).trainable_ = trainable;
 
             auto& ss = get_default_session<tensor_type>();
             ss.remember( *this );
@@ -77,16 +79,16 @@ namespace ceras
             {
                 typedef typename tensor_type::value_type value_type;
                 state.gradient_.reset( value_type{0} );
-                regularizer_.synchronized_ = false; // mark changes
+                state.regularizer_.synchronized_ = false; // mark changes
             }
             return state.data_;
         }
 
         void backward( auto const& grad ) noexcept
         {
-            if (!trainable_) return;
-
             auto& state = *((*this).state_);
+            if (!state.trainable_) return;
+
             {
                 if (state.gradient_.shape() != state.data_.shape())
                     state.gradient_.resize( state.data_.shape() );
@@ -94,20 +96,20 @@ namespace ceras
             state.gradient_ += grad; // collecting all the gradients from its children nodes, will be called mulitple times in a single backward pass
 
             // apply regularizers
-            if (!(regularizer_.synchronized_)) // in case of multiple invoke of this method in a same backward pass
+            if (!(state.regularizer_.synchronized_)) // in case of multiple invoke of this method in a same backward pass
             {
-                if ( regularizer_.l1_ >= eps ) // l1 regularizer
+                if ( state.regularizer_.l1_ >= eps ) // l1 regularizer
                 {
-                    value_type const factor = regularizer_.l1_;
+                    value_type const factor = state.regularizer_.l1_;
                     for_each( state.data_.begin(), state.data_.end(), state.gradient_.begin(), [factor]( value_type d, value_type& g ){ g += (d >= value_type{0}) ? factor : -factor; } );
                 }
-                if ( regularizer_.l2_ >= eps ) // l2 regularizer
+                if ( state.regularizer_.l2_ >= eps ) // l2 regularizer
                 {
-                    value_type const factor = regularizer_.l2_;
+                    value_type const factor = state.regularizer_.l2_;
                     for_each( state.data_.begin(), state.data_.end(), state.gradient_.begin(), [factor]( value_type d, value_type& g ){ g += value_type{2} * d * factor; } );
                 }
 
-                regularizer_.synchronized_ = true;
+                state.regularizer_.synchronized_ = true;
             }
         }
 
@@ -159,29 +161,29 @@ namespace ceras
             gradient().reset();
         }
 
-        bool trainable() const noexcept { return trainable_; }
-        bool& trainable() noexcept { return trainable_; }
+        bool trainable() const noexcept { return (*((*this).state_)).trainable_; }
+        bool& trainable() noexcept { return (*((*this).state_)).trainable_; }
 
-        void trainable( bool t ) { trainable_ = t; }
+        void trainable( bool t ) { (*((*this).state_)).trainable_ = t; }
 
         value_type l1_regularizer() const
         {
-            return regularizer_.l1_;
+            return (*((*this).state_)).regularizer_.l1_;
         }
 
         value_type& l1_regularizer()
         {
-            return regularizer_.l1_;
+            return (*((*this).state_)).regularizer_.l1_;
         }
 
         value_type l2_regularizer() const
         {
-            return regularizer_.l2_;
+            return (*((*this).state_)).regularizer_.l2_;
         }
 
         value_type& l2_regularizer()
         {
-            return regularizer_.l2_;
+            return (*((*this).state_)).regularizer_.l2_;
         }
 
     };//struct variable
-- 
2.43.0


From 4b354e89c636266e779a54412fe4c9ad3ed9933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 25/49] fix: model: setting the trainable flag of a model
 compiles and reaches its variables

---
 include/model.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/model.hpp b/include/model.hpp
index 7937e5e..6a686d9 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -23,12 +23,12 @@ namespace ceras
         }
         else if constexpr (is_binary_operator_v<Ex>)
         {
-            make_trainable( ex.lhs_op_, t );
-            make_trainable( ex.rhs_op_, t );
+            make_trainable( ex.lhs_op(), t );
+            make_trainable( ex.rhs_op(), t );
         }
         else if constexpr (is_unary_operator_v<Ex>)
         {
-            make_trainable( ex.op_, t );
+            make_trainable( ex.op(), t );
         }
     }
 
-- 
2.43.0


From 2f8fd50f1cb2fd2f647c1348e17650922bad069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 26/49] fix: adadelta: accumulate updates separately from
 gradients

---
 include/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 31da89e..3d1cf8d 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -208,7 +208,7 @@ namespace ceras
                         contexts.push_back( zeros_like( data ) );
                     }
                     auto& moments = contexts[0];
-                    auto& delta = contexts[0];
+                    auto& delta = contexts[1];
 
                     /*
                     if (iterations_==0)
-- 
2.43.0


From 35da823abd086eb42e7ab667a3f27cd049cd2b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 27/49] fix: sgd: the Nesterov update was used without the
 Nesterov flag and vice versa

---
 include/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 3d1cf8d..d6cfc69 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -58,7 +58,7 @@ namespace ceras
                         contexts.push_back( zeros_like( data ) );
                     auto& moments = contexts[0];
                     for_each( moments.begin(), moments.end(), gradient.begin(), [this]( T& m, T g ) { m *= (*this).momentum_; m -= (*this).learning_rate_ * g;} );
-                    if (!nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
+                    if ( nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
                     else data += moments;
 
                     gradient.reset(); // clear variable gradient
-- 
2.43.0


From c4e35f20acc175e7f62a6826b6f03d3588ddb2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 28/49] fix: optimizers do not share the moments of a variable
 with other optimizers

---
 include/optimizer.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index d6cfc69..60c7325 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -34,6 +34,7 @@ namespace ceras
         T             decay_;
         bool          nesterov_;
         unsigned long iterations_;
+        std::unordered_map<int, std::vector<tensor_type>> contexts_; // for each variable, not shared with other optimizers
 
         sgd(Loss& loss, std::size_t batch_size, T learning_rate=1.0e-1, T momentum=0.0, T decay=0.0, bool nesterov=false) noexcept :
             loss_{loss}, learning_rate_(learning_rate), momentum_(std::max(T{0}, momentum)), decay_{std::max(T{0}, decay)}, nesterov_{nesterov}, iterations_{0}
@@ -53,7 +54,7 @@ namespace ceras
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
-                    auto& contexts = v.contexts();
+                    auto& contexts = contexts_[id];
                     if ( contexts.empty() ) // create context
                         contexts.push_back( zeros_like( data ) );
                     auto& moments = contexts[0];
@@ -77,6 +78,7 @@ namespace ceras
         T             learning_rate_;
         T             decay_;
         unsigned long iterations_;
+        std::unordered_map<int, std::vector<tensor_type>> contexts_; // for each variable, not shared with other optimizers
 
         adagrad(Loss& loss, std::size_t batch_size, T learning_rate=1.0e-1, T decay=0.0) noexcept :
                 loss_(loss), learning_rate_(learning_rate), decay_{std::max(T{0}, decay)}, iterations_{0}
@@ -98,7 +100,7 @@ namespace ceras
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
-                    auto& contexts = v.contexts();
+                    auto& contexts = contexts_[id];
                     if ( contexts.empty() ) // create context
                         contexts.push_back( zeros_like( data ) );
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
@@ -128,6 +130,7 @@ namespace ceras
         T             rho_;
         T             decay_;
         unsigned long iterations_;
+        std::unordered_map<int, std::vector<tensor_type>> contexts_; // for each variable, not shared with other optimizers
 
         rmsprop(Loss& loss, std::size_t batch_size, T learning_rate=1.0e-1, T rho=0.9, T decay=0.0) noexcept :
                 loss_(loss), learning_rate_(learning_rate), rho_{rho},  decay_{std::max(T{0}, decay)}, iterations_{0}
@@ -149,7 +152,7 @@ namespace ceras
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
-                    auto& contexts = v.contexts();
+                    auto& contexts = contexts_[id];
                     if ( contexts.empty() ) // create context
                         contexts.push_back( zeros_like( data ) );
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
@@ -181,6 +184,7 @@ namespace ceras
         T             rho_;
         T             learning_rate_;
         unsigned long iterations_;
+        std::unordered_map<int, std::vector<tensor_type>> contexts_; // for each variable, not shared with other optimizers
 
         adadelta(Loss& loss, std::size_t batch_size, T rho=0.9) noexcept : loss_(loss), rho_{rho}, iterations_{0}
         {
@@ -199,7 +203,7 @@ namespace ceras
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
-                    auto& contexts = v.contexts();
+                    auto& contexts = contexts_[id];
                     if ( contexts.empty() ) // create context
                     {
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
@@ -256,6 +260,7 @@ namespace ceras
         T             beta_2_;
         bool          amsgrad_;
         unsigned long iterations_;
+        std::unordered_map<int, std::vector<tensor_type>> contexts_; // for each variable, not shared with other optimizers
 
         adam(Loss& loss, std::size_t batch_size, T learning_rate=1.0e-1, T beta_1=0.9, T beta_2=0.999, bool amsgrad=false) noexcept :
              loss_{loss}, learning_rate_{learning_rate}, beta_1_{beta_1}, beta_2_{beta_2}, amsgrad_{ amsgrad }, iterations_{0}
@@ -274,7 +279,7 @@ namespace ceras
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
-                    auto& contexts = v.contexts();
+                    auto& contexts = contexts_[id];
                     if ( contexts.empty() ) // create context
                     {
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
-- 
2.43.0


From 77084c11c065beea159631cedfc198ac9856e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 29/49] fix: model: fit does not train with the first batch of
 the validation split, nor switch layers to training with validation data

---
 include/model.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/model.hpp b/include/model.hpp
index 6a686d9..0e73a85 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -204,9 +204,11 @@ namespace ceras
                     std::copy_n( inputs.data() + l * input_size_per_batch, input_size_per_batch, input_samples.data() );
                     std::copy_n( outputs.data() + l * output_size_per_batch, output_size_per_batch, output_samples.data() );
                     // forward pass
+                    learning_phase = ( l < training_loops ) ? 1 : 0; // normalization and drop-out layers do not train with the validation data
                     auto error = s.run( loss_ ).as_scalar();
+                    learning_phase = 1;
                     // in case of training split, do backpropagation
-                    if ( l <= training_loops )
+                    if ( l < training_loops )
                     {
                         training_error += error;
                         s.run( compiled_optimizer_ );
-- 
2.43.0


From bd9ec0a064ed01340b4624fbbdecab9b8569eda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 30/49] fix: shape of reductions along the default (last) axis
 is computed within the shape

---
 include/operation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 981251d..ffd6ef9 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -3334,7 +3334,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
@@ -3469,7 +3469,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto const new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
@@ -3585,7 +3585,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto const new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
-- 
2.43.0


From 7b8280cf7016d9c064a61aa0c2c2d41f7aff1752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:07 +0000
Subject: [PATCH 31/49] fix: model: predictions and evaluations that end in an
 exception restore the training mode

---
 include/config.hpp | 11 +++++++++++
 include/model.hpp  | 20 ++++++++------------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/config.hpp b/include/config.hpp
index 9af4930..dcaa347 100644
--- a/include/config.hpp
+++ b/include/config.hpp
@@ -76,6 +76,17 @@ namespace ceras
     /// \code
     ///
     inline int learning_phase = 1;
+
+    ///
+    /// @brief Sets the learning phase for a scope, training mode is restored at its end, also when it is left by an exception.
+    ///
+    struct scoped_learning_phase
+    {
+        explicit scoped_learning_phase( int phase ) noexcept { learning_phase = phase; }
+        ~scoped_learning_phase() { learning_phase = 1; }
+        scoped_learning_phase( scoped_learning_phase const& ) = delete;
+        scoped_learning_phase& operator = ( scoped_learning_phase const& ) = delete;
+    };
 }
 
 #endif//FBXYAXRPGSNHIXESHOGNYHPVEWWVSRSRJLQPIRIFENBGNMGFLJNMWXDNQLHKOAGBNYGBJRLBD
diff --git a/include/model.hpp b/include/model.hpp
index 0e73a85..5eb9a61 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -119,7 +119,7 @@ namespace ceras
             typedef typename Tsor::value_type value_type;
             value_type validation_error = 0;
 
-            learning_phase = 0; // for different behaviours in normalization and drop-out layers
+            scoped_learning_phase const phase{ 0 }; // for different behaviours in normalization and drop-out layers
 
             for ( auto l : tq::trange( loops ) )
             {
@@ -132,8 +132,6 @@ namespace ceras
                 validation_error += error;
             }
 
-            learning_phase = 1; // for different behaviours in normalization and drop-out layers
-
             return validation_error / loops;
         }
 
@@ -204,9 +202,11 @@ namespace ceras
                     std::copy_n( inputs.data() + l * input_size_per_batch, input_size_per_batch, input_samples.data() );
                     std::copy_n( outputs.data() + l * output_size_per_batch, output_size_per_batch, output_samples.data() );
                     // forward pass
-                    learning_phase = ( l < training_loops ) ? 1 : 0; // normalization and drop-out layers do not train with the validation data
-                    auto error = s.run( loss_ ).as_scalar();
-                    learning_phase = 1;
+                    value_type error = 0;
+                    {
+                        scoped_learning_phase const phase{ ( l < training_loops ) ? 1 : 0 }; // normalization and drop-out layers do not train with the validation data
+                        error = s.run( loss_ ).as_scalar();
+                    }
                     // in case of training split, do backpropagation
                     if ( l < training_loops )
                     {
@@ -347,17 +347,13 @@ namespace ceras
         template< Tensor Tsor>
         auto predict( Tsor const& input_tensor )
         {
-            learning_phase = 0; // for different behaviours in normalization and drop-out layers
+            scoped_learning_phase const phase{ 0 }; // for different behaviours in normalization and drop-out layers
 
             //session<Tsor> s;
             auto& s = get_default_session<Tsor>();//.get();
             s.bind( place_holder_, input_tensor );
 
-            auto ans = s.run( expression_ );
-
-            learning_phase = 1; // restore learning phase
-
-            return ans;
+            return s.run( expression_ );
         }
 
         ///
-- 
2.43.0


From 2425555447088f889b3732e55d265f2659bb3a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:54 +0000
Subject: [PATCH 32/49] fix: tensor: a resize that runs out of memory leaves
 the tensor as it was

---
 include/tensor.hpp       | 1 +
 include/utils/vector.hpp | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/tensor.hpp b/include/tensor.hpp
index 305226a..71f1f11 100644
--- a/include/tensor.hpp
+++ b/include/tensor.hpp
@@ -335,6 +335,7 @@ namespace ceras
         constexpr self_type& resize( std::vector< unsigned long > const& new_shape )
         {
             unsigned long const new_size = std::accumulate( new_shape.begin(), new_shape.end(), 1UL, [](auto x, auto y){ return x*y; } );
+            (*this).shape_.reserve( new_shape.size() ); // may throw, the tensor stays as it is in that case
             if( (*this).size() != new_size )
                 (*vector_).resize(new_size);
             (*this).shape_.resize( new_shape.size() );
diff --git a/include/utils/vector.hpp b/include/utils/vector.hpp
index 1f36e48..521c87d 100644
--- a/include/utils/vector.hpp
+++ b/include/utils/vector.hpp
@@ -91,14 +91,17 @@ namespace ceras
             if ( size == (*this).size() )
                 return;
 
-            clear();
+            pointer new_data = nullptr;
 
             if ( size != 0 )
             {
                 allocator_type alloc;
-                data_ = alloc.allocate( size ); // may throw, the vector stays empty in that case
-                size_ = size;
+                new_data = alloc.allocate( size ); // may throw, the vector stays as it is in that case
             }
+
+            clear();
+            data_ = new_data;
+            size_ = size;
         }
 
         constexpr pointer data() noexcept
-- 
2.43.0


From 6fb47d2cd0f84ba420718f29861a60665e50f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 33/49] fix: optimizers keep their loss: copying or moving a
 compiled model left them with a dangling reference

---
 include/optimizer.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 60c7325..861dc8c 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -28,7 +28,7 @@ namespace ceras
     {
         typedef tensor< T > tensor_type;
 
-        Loss&         loss_;
+        Loss          loss_;
         T             learning_rate_;
         T             momentum_;
         T             decay_;
@@ -74,7 +74,7 @@ namespace ceras
     {
         typedef tensor< T > tensor_type;
 
-        Loss&         loss_;
+        Loss          loss_;
         T             learning_rate_;
         T             decay_;
         unsigned long iterations_;
@@ -125,7 +125,7 @@ namespace ceras
     {
         typedef tensor< T > tensor_type;
 
-        Loss&         loss_;
+        Loss          loss_;
         T             learning_rate_;
         T             rho_;
         T             decay_;
@@ -180,7 +180,7 @@ namespace ceras
     {
         typedef tensor< T > tensor_type;
 
-        Loss&         loss_;
+        Loss          loss_;
         T             rho_;
         T             learning_rate_;
         unsigned long iterations_;
@@ -254,7 +254,7 @@ namespace ceras
     {
         typedef tensor< T > tensor_type;
 
-        Loss&         loss_;
+        Loss          loss_;
         T             learning_rate_;
         T             beta_1_;
         T             beta_2_;
@@ -328,7 +328,7 @@ namespace ceras
     struct gradient_descent : enable_id< gradient_descent< Loss, T >, "gradient_descent optimizer" >, enable_shared<gradient_descent<Loss, T>>
     {
         typedef tensor< T > tensor_type;
-        Loss& loss_;
+        Loss loss_;
         T learning_rate_;
         T momentum_;
 
-- 
2.43.0


From 3359a9318be8fac4a7293a49ebda1b5da9b328c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:30 +0000
Subject: [PATCH 34/49] fix: assigning to random_seed seeds the random number
 generator, as documented

---
 include/tensor.hpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/tensor.hpp b/include/tensor.hpp
index 71f1f11..2f623d6 100644
--- a/include/tensor.hpp
+++ b/include/tensor.hpp
@@ -28,10 +28,30 @@ namespace ceras
     /// random_seed=42;
     /// \endcode
     ///
-    static unsigned long random_seed = std::chrono::system_clock::now().time_since_epoch().count();
+    /// Assigning to it seeds the random number generator, whenever it is done.
+    ///
+    struct random_seed_type
+    {
+        random_seed_type( unsigned long value, std::mt19937& generator ) : value_{ value }, generator_{ generator } { generator_.seed( value_ ); }
+
+        random_seed_type& operator = ( unsigned long value )
+        {
+            value_ = value;
+            generator_.seed( value_ );
+            return *this;
+        }
+
+        operator unsigned long() const noexcept { return value_; }
+
+    private:
+        unsigned long value_;
+        std::mt19937& generator_;
+    };//random_seed_type
 
     // static random number random_generator
-    static std::mt19937 random_generator{random_seed};
+    static std::mt19937 random_generator;
+
+    static random_seed_type random_seed{ static_cast<unsigned long>( std::chrono::system_clock::now().time_since_epoch().count() ), random_generator };
 
     template< typename T >
     using default_allocator = cached_allocator<T>;
-- 
2.43.0


From 6f3e28a57ac26f241be38f001b06b7c68a3e1e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:22 +0000
Subject: [PATCH 35/49] fix: optimizers: a training step that ends in an
 exception leaves no gradients behind for the next one

---
 include/optimizer.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 861dc8c..120c37c 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -15,6 +15,20 @@
 namespace ceras
 {
 
+    // An update that ends in an exception leaves no gradient behind for the next update.
+    template< typename Tsor >
+    struct scoped_gradients
+    {
+        int const exceptions_ = std::uncaught_exceptions();
+
+        ~scoped_gradients()
+        {
+            if ( std::uncaught_exceptions() > exceptions_ )
+                for ( auto& [id, v] : get_default_session<Tsor>().variables_ )
+                    v.gradient().reset();
+        }
+    };//scoped_gradients
+
     // sgd:
     //     - loss:
     //     - batch_size:
@@ -45,6 +59,7 @@ namespace ceras
 
         void forward()
         {
+            scoped_gradients<tensor_type> const scope;
             loss_.backward( ones<T>( {1, } ) );
             learning_rate_ /= ( 1.0 + decay_ * iterations_ );
             auto& ss = get_default_session<tensor_type>();
@@ -89,6 +104,7 @@ namespace ceras
 
         void forward()
         {
+            scoped_gradients<tensor_type> const scope;
             loss_.backward( ones<T>( {1, } ) );
 
             learning_rate_ /= ( 1.0 + decay_ * iterations_ );
@@ -141,6 +157,7 @@ namespace ceras
 
         void forward()
         {
+            scoped_gradients<tensor_type> const scope;
             loss_.backward( ones<T>( {1, } ) );
 
             learning_rate_ /= ( 1.0 + decay_ * iterations_ );
@@ -194,6 +211,7 @@ namespace ceras
 
         void forward()
         {
+            scoped_gradients<tensor_type> const scope;
             loss_.backward( ones<T>( {1, } ) );
 
             auto& ss = get_default_session<tensor_type>();//.get();
@@ -271,6 +289,7 @@ namespace ceras
 
         void forward()
         {
+            scoped_gradients<tensor_type> const scope;
             loss_.backward( ones<T>( {1, } ) );
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
@@ -340,6 +359,7 @@ namespace ceras
         void forward()
         {
             // update the gradient in the loss
+            scoped_gradients<tensor_type> const scope;
             loss_.backward( ones<T>( {1, } ) );
             //update variables
             auto& ss = get_default_session<tensor_type>();//.get();
-- 
2.43.0


From 29408158d283374af6e6cc3cbe1abc592b3bb8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:24 +0000
Subject: [PATCH 36/49] fix: session::bind remembers a place holder once, not
 once per bind

---
 include/session.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/session.hpp b/include/session.hpp
index ad87ace..ec48c81 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -44,7 +44,8 @@ namespace ceras
         session& bind( place_holder_type& p_holder, tensor_type const& value )
         {
             p_holder.bind( value );
-            place_holders_.emplace_back( p_holder );
+            if ( std::find( place_holders_.begin(), place_holders_.end(), p_holder ) == place_holders_.end() ) // one reference is enough, however often it is bound
+                place_holders_.emplace_back( p_holder );
             return *this;
         }
 
-- 
2.43.0


From 4cf73b72cf333cfc6bac2eb2f3d0c949d997e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:13 +0000
Subject: [PATCH 37/49] fix: parallel: ranges that end near the largest value
 of the index type

---
 include/utils/parallel.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/utils/parallel.hpp b/include/utils/parallel.hpp
index ea4a8ad..7c8a644 100644
--- a/include/utils/parallel.hpp
+++ b/include/utils/parallel.hpp
@@ -51,18 +51,21 @@ namespace ceras
             };
 
             threads.reserve( total_cores-1 );
-            std::uint_least64_t tasks_per_thread = ( dim_last - dim_first + total_cores - 1 ) / total_cores;
+            std::uint_least64_t const total_tasks = dim_last - dim_first;
+            std::uint_least64_t tasks_per_thread = ( total_tasks + total_cores - 1 ) / total_cores;
 
+            // counting from dim_first, for sums beyond dim_last may not fit in Integer_Type
             for ( auto index : range( total_cores-1 ) )
             {
-                Integer_Type first = tasks_per_thread * index + dim_first;
-                first = std::min( first, dim_last );
-                Integer_Type last =  first + tasks_per_thread;
-                last = std::min( last, dim_last );
-                threads.emplace_back( std::thread{ job_slice, first, last } );
+                std::uint_least64_t first = tasks_per_thread * index;
+                first = std::min( first, total_tasks );
+                std::uint_least64_t last =  first + tasks_per_thread;
+                last = std::min( last, total_tasks );
+                threads.emplace_back( std::thread{ job_slice, static_cast<Integer_Type>( dim_first + first ), static_cast<Integer_Type>( dim_first + last ) } );
             }
 
-            job_slice( tasks_per_thread*(total_cores-1) + dim_first, dim_last );
+            std::uint_least64_t const rest = std::min( tasks_per_thread*(total_cores-1), total_tasks );
+            job_slice( static_cast<Integer_Type>( dim_first + rest ), dim_last );
 
             for ( auto& th : threads )
                 th.join();
-- 
2.43.0


From c1b55b6294e91b6d31db90b4ed483af115f085fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 38/49] fix: adam and adadelta: a first step that runs out of
 memory between its two moments does not leave the second one missing

---
 include/optimizer.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 120c37c..c5b4f39 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -222,13 +222,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = contexts_[id];
-                    if ( contexts.empty() ) // create context
-                    {
-                        //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
-                        //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
-                        contexts.push_back( zeros_like( data ) );
+                    while ( contexts.size() < 2 ) // create contexts, or the rest of them when this ran out of memory before
                         contexts.push_back( zeros_like( data ) );
-                    }
                     auto& moments = contexts[0];
                     auto& delta = contexts[1];
 
@@ -299,13 +294,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = contexts_[id];
-                    if ( contexts.empty() ) // create context
-                    {
-                        //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
-                        //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
-                        contexts.push_back( zeros_like( data ) );
+                    while ( contexts.size() < 2 ) // create contexts, or the rest of them when this ran out of memory before
                         contexts.push_back( zeros_like( data ) );
-                    }
                     auto& m = contexts[0];
                     auto& v = contexts[1];
 
-- 
2.43.0


From 2f56e5986c751eb0c3e817864a645d6a37c1504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:39 +0000
Subject: [PATCH 39/49] fix: tqdm: a timed loop of zero seconds does not divide
 by zero

---
 include/utils/tqdm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/tqdm.hpp b/include/utils/tqdm.hpp
index 07ebf6f..8198013 100644
--- a/include/utils/tqdm.hpp
+++ b/include/utils/tqdm.hpp
@@ -662,7 +662,7 @@ namespace tq
         void update()
         {
             double t = bar_.elapsed_time();
-            bar_.update( t / num_seconds_ );
+            bar_.update( num_seconds_ > 0 ? t / num_seconds_ : 1 ); // no time at all is over at once
         }
 
         void set_ostream( std::ostream& os )
-- 
2.43.0


From c02c6f65e202b4c4a841088b38cbc11648a39a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:58 +0000
Subject: [PATCH 40/49] fix: cached allocator: a request for more bytes than
 can be counted fails instead of getting a small block

---
 include/utils/cached_allocator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utils/cached_allocator.hpp b/include/utils/cached_allocator.hpp
index 3ba86ec..274089f 100644
--- a/include/utils/cached_allocator.hpp
+++ b/include/utils/cached_allocator.hpp
@@ -141,6 +141,9 @@ namespace ceras
 
         [[nodiscard]] T* allocate( unsigned long const n )
         {
+            if ( n > std::numeric_limits<unsigned long>::max() / sizeof(T) )
+                throw std::bad_array_new_length{};
+
             std::byte* ans = get_memory_cache().allocate( n*sizeof(T) );
             std::memset( ans, 0, n*sizeof(T) );
             return reinterpret_cast<T*>( ans );
-- 
2.43.0


From c0d404d3c0472efdb6f09f99e764b58cf211fd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:30 +0000
Subject: [PATCH 41/49] fix: stb_image_write: the write buffer starts empty,
 not with whatever is on the stack

---
 include/utils/3rd_party/stb_image_write.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utils/3rd_party/stb_image_write.h b/include/utils/3rd_party/stb_image_write.h
index df4de33..c67772f 100644
--- a/include/utils/3rd_party/stb_image_write.h
+++ b/include/utils/3rd_party/stb_image_write.h
@@ -276,6 +276,7 @@ static void stbi__start_write_callbacks(stbi__write_context *s, stbi_write_func
 {
    s->func    = c;
    s->context = context;
+   s->buf_used = 0;
 }
 
 #ifndef STBI_WRITE_NO_STDIO
-- 
2.43.0


From 9bdf23ccf61915edca55ad44e46d90d7b1dc8cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:53 +0000
Subject: [PATCH 42/49] fix: imageio: an image file that can not be read
 completely is not returned with the rest of its pixels made up

---
 include/utils/imageio.hpp | 54 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index 025d1e8..9ec66e1 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -26,15 +26,61 @@ namespace ceras::imageio
         return ans;
     }
 
+    // where stb_image gets the bytes of an image file from
+    struct image_source
+    {
+        std::string bytes_;
+        std::size_t at_ = 0;
+        char const* look_ahead_ = nullptr; // stb_image first fills its look-ahead buffer, asking for as much as there is
+        bool exhausted_ = false; // stb_image, which goes on with zeros then, has asked for bytes beyond the end
+
+        static int read( void* user, char* data, int size )
+        {
+            auto& self = *reinterpret_cast<image_source*>( user );
+            std::size_t const n = std::min( self.bytes_.size() - self.at_, static_cast<std::size_t>( size ) );
+            if ( self.look_ahead_ == nullptr ) self.look_ahead_ = data;
+            if ( n == 0 || ( n != static_cast<std::size_t>( size ) && data != self.look_ahead_ ) ) self.exhausted_ = true;
+            std::copy_n( self.bytes_.data() + self.at_, n, data );
+            self.at_ += n;
+            return static_cast<int>( n );
+        }
+
+        static void skip( void* user, int n )
+        {
+            auto& self = *reinterpret_cast<image_source*>( user );
+            if ( n > 0 && static_cast<std::size_t>( n ) > self.bytes_.size() - self.at_ ) self.exhausted_ = true;
+            self.at_ = ( n > 0 ) ? std::min( self.at_ + static_cast<std::size_t>( n ), self.bytes_.size() ) : self.at_ - std::min( self.at_, static_cast<std::size_t>( -static_cast<long>( n ) ) );
+        }
+
+        static int eof( void* user )
+        {
+            auto& self = *reinterpret_cast<image_source*>( user );
+            return self.at_ == self.bytes_.size();
+        }
+    };
+
+    //
+    // Returns an empty tensor if the image file can not be read completely.
+    //
     inline tensor<unsigned char> imread( std::string const& path )
     {
+        image_source source;
+        {
+            std::ifstream ifs{ path, std::ios::binary };
+            if ( !ifs.good() ) return {};
+            std::array<char, 4096> buffer;
+            while ( ifs.read( buffer.data(), buffer.size() ), ifs.gcount() > 0 )
+                source.bytes_.append( buffer.data(), ifs.gcount() );
+            if ( ifs.bad() ) return {};
+        }
+
+        stbi_io_callbacks const callbacks{ image_source::read, image_source::skip, image_source::eof };
         int width, height, channels;
-        unsigned char *img = stbi_load( path.c_str(), &width, &height, &channels, 0);
-        if ( img == nullptr ) return {};
+        std::unique_ptr<unsigned char, void (*)( void* )> img{ stbi_load_from_callbacks( &callbacks, &source, &width, &height, &channels, 0 ), stbi_image_free };
+        if ( img == nullptr || source.exhausted_ ) return {};
 
         tensor<unsigned char> ans{ {static_cast<unsigned long>(width), static_cast<unsigned long>(height), static_cast<unsigned long>(channels)} };
-        std::copy_n( img, width*height*channels, ans.begin() );
-        stbi_image_free(img);
+        std::copy_n( img.get(), ans.size(), ans.begin() );
         return ans;
     }
 
-- 
2.43.0


From bf301e3997d28d018b0332446f2821a1c3b935b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:53 +0000
Subject: [PATCH 43/49] fix: imageio: a failure while writing an image file is
 reported

---
 include/utils/imageio.hpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index 9ec66e1..bf99737 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -84,6 +84,9 @@ namespace ceras::imageio
         return ans;
     }
 
+    //
+    // Returns false if the image file can not be written completely.
+    //
     template< Tensor Tsor >
     inline bool direct_imwrite( std::string const& path, Tsor const& image )
     {
@@ -105,24 +108,36 @@ namespace ceras::imageio
             file_extension = std::string{".png"};
         }
 
+        auto const& write_to_file = []( std::string const& file_path, auto const& encode )
+        {
+            std::ofstream ofs{ file_path, std::ios::binary };
+            if ( !ofs.good() ) return false;
+            stbi_write_func* const write = []( void* context, void* data, int size ) { reinterpret_cast<std::ofstream*>( context )->write( reinterpret_cast<char const*>( data ), size ); };
+            bool const encoded = ( 0 != encode( write, &ofs ) );
+            ofs.close();
+            return encoded && ofs.good();
+        };
+
+        void const* const data = reinterpret_cast<const void*>( image.data() );
+
         if ( file_extension == std::string{".png"} )
-            return 0 != stbi_write_png( full_path.c_str(), w, h, ch, reinterpret_cast<const void*>( image.data() ), 0 );
+            return write_to_file( full_path, [&]( auto write, void* file ) { return stbi_write_png_to_func( write, file, w, h, ch, data, 0 ); } );
 
         if ( file_extension == std::string{".bmp"} )
-            return 0 != stbi_write_bmp( full_path.c_str(), w, h, ch, reinterpret_cast<const void*>( image.data() ) );
+            return write_to_file( full_path, [&]( auto write, void* file ) { return stbi_write_bmp_to_func( write, file, w, h, ch, data ); } );
 
         if ( file_extension == std::string{".tga"} )
-            return 0 != stbi_write_tga( full_path.c_str(), w, h, ch, reinterpret_cast<const void*>( image.data() ) );
+            return write_to_file( full_path, [&]( auto write, void* file ) { return stbi_write_tga_to_func( write, file, w, h, ch, data ); } );
 
         if ( file_extension == std::string{".jpg"} || file_extension == std::string{".jpeg"} )
-            return 0 != stbi_write_jpg( full_path.c_str(), w, h, ch, reinterpret_cast<const void*>( image.data() ), 100 );
+            return write_to_file( full_path, [&]( auto write, void* file ) { return stbi_write_jpg_to_func( write, file, w, h, ch, data, 100 ); } );
 
         if ( file_extension == std::string{".hdr"} )
-            return 0 != stbi_write_hdr( full_path.c_str(), w, h, ch, reinterpret_cast<const float*>( image.data() ) );
+            return write_to_file( full_path, [&]( auto write, void* file ) { return stbi_write_hdr_to_func( write, file, w, h, ch, reinterpret_cast<const float*>( data ) ); } );
 
         // reaching here, the extension is unknown, png is the last chance
         full_path += std::string{".png"};
-        return 0 != stbi_write_png( full_path.c_str(), w, h, ch, reinterpret_cast<const void*>( image.data() ), 0 );
+        return write_to_file( full_path, [&]( auto write, void* file ) { return stbi_write_png_to_func( write, file, w, h, ch, data, 0 ); } );
     }
 
     template< Tensor Tsor >
-- 
2.43.0


From d5df748a5901e186f2c70e0e120f529b2ead6b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:53 +0000
Subject: [PATCH 44/49] fix: imageio: an image can be written to a path without
 any dot

---
 include/utils/imageio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index bf99737..97d2f50 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -101,7 +101,7 @@ namespace ceras::imageio
 
         // setting up extension
         std::string full_path = path;
-        std::string file_extension=full_path.substr(full_path.find_last_of('.'));
+        std::string file_extension=full_path.substr(std::min(full_path.find_last_of('.'), full_path.size()));
         if ( file_extension.empty() )
         {
             full_path += std::string{".png"};
-- 
2.43.0


From 9048abc05f8aad1cdddd69b519096b2ac50989f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:21 +0000
Subject: [PATCH 45/49] fix: imageio: writing a radiance file does not read
 beyond the end of an image of 8-bit levels

---
 include/utils/imageio.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index 97d2f50..000ae95 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -133,7 +133,18 @@ namespace ceras::imageio
             return write_to_file( full_path, [&]( auto write, void* file ) { return stbi_write_jpg_to_func( write, file, w, h, ch, data, 100 ); } );
 
         if ( file_extension == std::string{".hdr"} )
-            return write_to_file( full_path, [&]( auto write, void* file ) { return stbi_write_hdr_to_func( write, file, w, h, ch, reinterpret_cast<const float*>( data ) ); } );
+        {
+            if constexpr( std::same_as<typename Tsor::value_type, float> )
+            {
+                return write_to_file( full_path, [&]( auto write, void* file ) { return stbi_write_hdr_to_func( write, file, w, h, ch, reinterpret_cast<const float*>( data ) ); } );
+            }
+            else // levels from 0 to 255, to be found again by imread
+            {
+                std::vector<float> radiance( image.size() );
+                std::transform( image.begin(), image.end(), radiance.begin(), []( auto x ) { return std::pow( static_cast<float>( x ) / 255.0f, 2.2f ); } );
+                return write_to_file( full_path, [&]( auto write, void* file ) { return stbi_write_hdr_to_func( write, file, w, h, ch, radiance.data() ); } );
+            }
+        }
 
         // reaching here, the extension is unknown, png is the last chance
         full_path += std::string{".png"};
-- 
2.43.0


From 32b709e8614920a11ed0659f2b50580e896a6f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:13 +0000
Subject: [PATCH 46/49] fix: image files: memory that runs out in the jpeg
 reader and the radiance writer is noticed

---
 include/utils/3rd_party/stb_image.h       | 3 +++
 include/utils/3rd_party/stb_image_write.h | 1 +
 2 files changed, 4 insertions(+)

diff --git a/include/utils/3rd_party/stb_image.h b/include/utils/3rd_party/stb_image.h
index 47f34cd..1fb5eb7 100644
--- a/include/utils/3rd_party/stb_image.h
+++ b/include/utils/3rd_party/stb_image.h
@@ -3924,6 +3924,7 @@ static void *stbi__jpeg_load(stbi__context *s, int *x, int *y, int *comp, int re
 {
    unsigned char* result;
    stbi__jpeg* j = (stbi__jpeg*) stbi__malloc(sizeof(stbi__jpeg));
+   if (!j) return stbi__errpuc("outofmem", "Out of memory");
    STBI_NOTUSED(ri);
    j->s = s;
    stbi__setup_jpeg(j);
@@ -3936,6 +3937,7 @@ static int stbi__jpeg_test(stbi__context *s)
 {
    int r;
    stbi__jpeg* j = (stbi__jpeg*)stbi__malloc(sizeof(stbi__jpeg));
+   if (!j) return stbi__err("outofmem", "Out of memory");
    j->s = s;
    stbi__setup_jpeg(j);
    r = stbi__decode_jpeg_header(j, STBI__SCAN_type);
@@ -3960,6 +3962,7 @@ static int stbi__jpeg_info(stbi__context *s, int *x, int *y, int *comp)
 {
    int result;
    stbi__jpeg* j = (stbi__jpeg*) (stbi__malloc(sizeof(stbi__jpeg)));
+   if (!j) return stbi__err("outofmem", "Out of memory");
    j->s = s;
    result = stbi__jpeg_info_raw(j, x, y, comp);
    STBI_FREE(j);
diff --git a/include/utils/3rd_party/stb_image_write.h b/include/utils/3rd_party/stb_image_write.h
index c67772f..bc040a5 100644
--- a/include/utils/3rd_party/stb_image_write.h
+++ b/include/utils/3rd_party/stb_image_write.h
@@ -755,6 +755,7 @@ static int stbi_write_hdr_core(stbi__write_context *s, int x, int y, int comp, f
       int i, len;
       char buffer[128];
       char header[] = "#?RADIANCE\n# Written by stb_image_write.h\nFORMAT=32-bit_rle_rgbe\n";
+      if (!scratch) return 0;
       s->func(s->context, header, sizeof(header)-1);
 
 #ifdef __STDC_WANT_SECURE_LIB__
-- 
2.43.0


From 233b7fa25002523c3aa9d2cc7588032d721df7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:13 +0000
Subject: [PATCH 47/49] fix: image files: reading a radiance file that is cut
 short comes to an end

---
 include/utils/3rd_party/stb_image.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/3rd_party/stb_image.h b/include/utils/3rd_party/stb_image.h
index 1fb5eb7..7e40d34 100644
--- a/include/utils/3rd_party/stb_image.h
+++ b/include/utils/3rd_party/stb_image.h
@@ -7074,7 +7074,7 @@ static float *stbi__hdr_load(stbi__context *s, int *x, int *y, int *comp, int re
                      scanline[i++ * 4 + k] = value;
                } else {
                   // Dump
-                  if (count > nleft) { STBI_FREE(hdr_data); STBI_FREE(scanline); return stbi__errpf("corrupt", "bad RLE data in HDR"); }
+                  if (count == 0 || count > nleft) { STBI_FREE(hdr_data); STBI_FREE(scanline); return stbi__errpf("corrupt", "bad RLE data in HDR"); }
                   for (z = 0; z < count; ++z)
                      scanline[i++ * 4 + k] = stbi__get8(s);
                }
-- 
2.43.0


From 0ca3138e53dac3b2fbe857b480b708af0a1a1859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:13 +0000
Subject: [PATCH 48/49] fix: imresize: a gray image has one channel, not two

---
 include/utils/imageio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index 000ae95..13278e2 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -20,7 +20,7 @@ namespace ceras::imageio
         }
         else
         {
-            stbir_resize_uint8( input_image.data(), input_shape[0], input_shape[1], 0, ans.data(), output_shape[0], output_shape[1], 0, 2 ); // gray
+            stbir_resize_uint8( input_image.data(), input_shape[0], input_shape[1], 0, ans.data(), output_shape[0], output_shape[1], 0, 1 ); // gray
         }
 
         return ans;
-- 
2.43.0


From da1e2c3e7e662fed98c6097417dca31275a13b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:13 +0000
Subject: [PATCH 49/49] fix: imresize: a resize that runs out of memory throws,
 and does not return a black image

---
 include/utils/imageio.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index 13278e2..16a1c0d 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -13,15 +13,18 @@ namespace ceras::imageio
     {
         std::vector<unsigned long> const& input_shape = input_image.shape();
         tensor<unsigned char> ans{ output_shape };
+        int resized = 0;
         if ( input_shape.size() == 3 )
         {
             better_assert( output_shape[2] == input_shape[2], "Expecting same channel for input and output, but the input channel is ", input_shape[2], " and the output channel is ", output_shape[2] );
-            stbir_resize_uint8( input_image.data(), input_shape[0], input_shape[1], 0, ans.data(), output_shape[0], output_shape[1], 0, input_shape[2] );
+            resized = stbir_resize_uint8( input_image.data(), input_shape[0], input_shape[1], 0, ans.data(), output_shape[0], output_shape[1], 0, input_shape[2] );
         }
         else
         {
-            stbir_resize_uint8( input_image.data(), input_shape[0], input_shape[1], 0, ans.data(), output_shape[0], output_shape[1], 0, 1 ); // gray
+            resized = stbir_resize_uint8( input_image.data(), input_shape[0], input_shape[1], 0, ans.data(), output_shape[0], output_shape[1], 0, 1 ); // gray
         }
+        if ( resized == 0 )
+            throw std::runtime_error( "imresize: failed to resize the image" );
 
         return ans;
     }
-- 
2.43.0

