From 71b9d0fe7c43250ed99ce0cb74480b6d58ec4ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:59 +0000
Subject: [PATCH 01/58] fix: attachItem destroys items moved between
 environments and alters refused items

An item coming from another environment was destroyed by its own detach()
when nobody else held a reference, and then used. A refused item was
detached from its environment, or had its id rewritten, before the
collision was noticed.
---
 src/core/Environment.cpp | 48 +++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 88e88c8..5138399 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -264,43 +264,55 @@ void Environment::attachItem(EnvironmentItem* item)
 {
     assert( item );
 
+    // the id is only stored in the item once it is clear that it can be used
+    std::string unique_id = item->unique_id;
     if(!item->isAttached())
     {
-        if(item->unique_id == ITEM_NOT_ATTACHED)
-            item->unique_id = envPrefix;
+        if(unique_id == ITEM_NOT_ATTACHED)
+            unique_id = envPrefix;
 
-        if(*item->unique_id.begin() != '/')
-            item->unique_id = envPrefix + item->unique_id;
+        if(*unique_id.begin() != '/')
+            unique_id = envPrefix + unique_id;
 
-        if(*item->unique_id.rbegin() == '/')
+        if(*unique_id.rbegin() == '/')
         {
             int numeric_id = ++last_id;
-            std::string candidate = item->unique_id + boost::lexical_cast<std::string>(numeric_id);
+            std::string candidate = unique_id + boost::lexical_cast<std::string>(numeric_id);
             while( items.count( candidate ) )
             {
                 numeric_id++;
-                candidate = item->unique_id + boost::lexical_cast<std::string>(numeric_id);
+                candidate = unique_id + boost::lexical_cast<std::string>(numeric_id);
             }
 
             last_id = numeric_id;
-            item->unique_id = candidate;
+            unique_id = candidate;
         }
     }
-    else if( item->getEnvironment() != this )
-    {
-	// if it comes from a different environment, it
-	// needs to be detached first
-	item->detach();
-    }
 
     // make sure item not already present
-    if( items.count(item->getUniqueId()) ) {
-	throw runtime_error("unique_id of item already in environment. " + item->getUniqueId() );
+    if( items.count( unique_id ) ) {
+	throw runtime_error("unique_id of item already in environment. " + unique_id );
     }
     // add item to internal list
-    items[item->getUniqueId()] = item;
-   
+    items[unique_id] = item;
+
+    if( item->isAttached() )
+    {
+	// if it comes from a different environment, it
+	// needs to be detached first. The entry in the list keeps it alive.
+	try
+	{
+	    item->detach();
+	}
+	catch( ... )
+	{
+	    items.erase( unique_id );
+	    throw;
+	}
+    }
+
     // set a pointer to environment object
+    item->unique_id.swap( unique_id );
     item->env = this;
     
     handle( Event( event::ITEM, event::ADD, item ) );
-- 
2.43.0


From cd8bf50b0c778b5266765cab2c3f66f2a21832fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:14 +0000
Subject: [PATCH 02/58] fix: event handlers are not told about all links on
 registration and removal

Links between layers, and frames and maps outside of the tree below the
root, were neither announced to a new handler nor withdrawn from a removed
one, and maps placed in the root were not withdrawn.
---
 src/core/Environment.cpp | 41 +++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 5138399..e89a82f 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -186,8 +186,20 @@ void Environment::addEventHandler(EventHandler *handler)
     //set root node
     handler->receive( Event( event::ROOT, event::ADD, getRootNode() ) );
     
-    //iterate over frame tree
+    //iterate over frame tree, and the trees that are not connected to the root
     publishChilds(handler, getRootNode());    
+    std::vector<FrameNode*> frameNodes = getItems<FrameNode>();
+    for(std::vector<FrameNode*>::iterator it = frameNodes.begin(); it != frameNodes.end(); it++)
+    {
+	if( *it != getRootNode() && !getParent(*it) )
+	    publishChilds(handler, *it);
+    }
+
+    //publish connections between layers
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++)
+    {
+	handler->receive( Event( event::LAYER_TREE, event::ADD, it->second, it->first ) );
+    }
 
     //publish connections between maps and Framenodes
     for(cartesianMapGraphType::iterator it = cartesianMapGraph.begin(); it != cartesianMapGraph.end(); it++) 
@@ -210,13 +222,6 @@ void Environment::detachChilds(FrameNode *parent, EventHandler *evl)
 	    detachChilds(*it, evl);   
 	}
 	
-	std::list<CartesianMap*> maplist = getMaps(*it);
-	
-	//now it is a leaf, detach all maps attached to framenode
-	for(std::list<CartesianMap*>::iterator mapit = maplist.begin(); mapit != maplist.end(); mapit++) {
-	    evl->receive( Event( event::FRAMENODE, event::REMOVE, *mapit, *it ) );
-	}
-	
 	//and remove the leaf
 	evl->receive( Event( event::FRAMENODE_TREE, event::REMOVE, parent, *it ) );
     }    
@@ -224,7 +229,25 @@ void Environment::detachChilds(FrameNode *parent, EventHandler *evl)
 
 void Environment::removeEventHandler(EventHandler *handler) 
 {
-    //reverse iterate over the frame node tree and detach all children    
+    //withdraw connections between maps and framenodes
+    for(cartesianMapGraphType::iterator it = cartesianMapGraph.begin(); it != cartesianMapGraph.end(); it++) 
+    {
+	handler->receive( Event( event::FRAMENODE, event::REMOVE, it->first, it->second ) );
+    }
+
+    //withdraw connections between layers
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++)
+    {
+	handler->receive( Event( event::LAYER_TREE, event::REMOVE, it->second, it->first ) );
+    }
+
+    //reverse iterate over the frame node trees and detach all children    
+    std::vector<FrameNode*> frameNodes = getItems<FrameNode>();
+    for(std::vector<FrameNode*>::iterator it = frameNodes.begin(); it != frameNodes.end(); it++)
+    {
+	if( *it != getRootNode() && !getParent(*it) )
+	    detachChilds(*it, handler);
+    }
     detachChilds(getRootNode(), handler);
     
     //remove root node
-- 
2.43.0


From 79b1166ef97f98169f0cd354aaad3404ebb3b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:30 +0000
Subject: [PATCH 03/58] fix: layer links are stored twice, and links that do
 not exist reported as removed

addChild compared only one of the parents of a layer, so repeating an
existing link added it again. removeChild reported a removal even when the
layers were not linked.
---
 src/core/Environment.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index e89a82f..d7c916c 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -463,9 +463,13 @@ void Environment::addChild(Layer* parent, Layer* child)
     assert( parent != child );
 
     // don't do anything if relationsship already present
-    layerTreeType::iterator it = layerTree.find( child );
-    if( it != layerTree.end() && it->second == parent )
-	return;
+    // note that a child may have several parents
+    std::pair<layerTreeType::iterator,layerTreeType::iterator> range = layerTree.equal_range( child );
+    for( layerTreeType::iterator it = range.first; it != range.second; it++ )
+    {
+	if( it->second == parent )
+	    return;
+    }
     
     if( !child->isAttached() )
 	attachItem( child );
@@ -494,14 +498,14 @@ void Environment::removeChild(FrameNode* parent, FrameNode* child)
 
 void Environment::removeChild(Layer* parent, Layer* child) 
 {
-    handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
-
     typedef layerTreeType::iterator iterator;
     std::pair<iterator,iterator> range = layerTree.equal_range( child );
     for( iterator it = range.first; it != range.second; it++ )
     {
 	if( it->second == parent )
 	{
+	    handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
+
 	    layerTree.erase( it );
 	    return;
 	}
-- 
2.43.0


From 5430ee4ccf60b9da1d59e37e334ead3e661f1133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:30 +0000
Subject: [PATCH 04/58] fix: operator connections are stored twice when made
 twice

Only one of the existing inputs or outputs was compared with the new one.
---
 src/core/Environment.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index d7c916c..53c8ca9 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -648,9 +648,12 @@ std::list<CartesianMap*> Environment::getMaps(FrameNode* node)
 bool Environment::addInput(Operator* op, Layer* input)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphInput.find( op );
-    if( it != operatorGraphInput.end() && it->second == input )
-	return false;
+    std::pair<operatorGraphType::iterator,operatorGraphType::iterator> range = operatorGraphInput.equal_range( op );
+    for( operatorGraphType::iterator it = range.first; it != range.second; it++ )
+    {
+	if( it->second == input )
+	    return false;
+    }
     
     if( !op->isAttached() )
 	attachItem( op );
@@ -666,9 +669,12 @@ bool Environment::addInput(Operator* op, Layer* input)
 bool Environment::addOutput(Operator* op, Layer* output)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphOutput.find( op );
-    if( it != operatorGraphOutput.end() && it->second == output )
-	return false;
+    std::pair<operatorGraphType::iterator,operatorGraphType::iterator> range = operatorGraphOutput.equal_range( op );
+    for( operatorGraphType::iterator it = range.first; it != range.second; it++ )
+    {
+	if( it->second == output )
+	    return false;
+    }
 
     if( !op->isAttached() )
 	attachItem( op );
-- 
2.43.0


From 56ed494c5c451982ce1500a65ddd583b6547a19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:37 +0000
Subject: [PATCH 05/58] fix: detachFromOperator does not detach the layer from
 its generator

It removed the layer from the inputs of the operator instead of its outputs.
---
 src/core/Layer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bf55d6..5bcf6f0 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -101,7 +101,7 @@ bool Layer::isDirty() const
 bool Layer::detachFromOperator()
 {
     if( isGenerated() ) 
-	return env->removeInput( getGenerator(), this );
+	return env->removeOutput( getGenerator(), this );
 
     return true;
 }
-- 
2.43.0


From 4d99ea078506651aaf234fde0ce38a8a3483ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:49 +0000
Subject: [PATCH 06/58] fix: ListGrid copies use an uninitialised pool, moved
 cells keep stale links

The copy constructor deleted an uninitialised pool pointer. After move() the
first item of each cell still pointed back into the old array, so erasing it
wrote to freed memory. A failing allocation was dereferenced or left an
assigned grid half changed.
---
 src/tools/ListGrid.hpp | 123 ++++++++++++++++++++---------------------
 1 file changed, 59 insertions(+), 64 deletions(-)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index c22e879..e55ad86 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -5,7 +5,8 @@
 #include <boost/multi_array.hpp>
 #include <boost/iterator/iterator_facade.hpp>
 #include <boost/pool/object_pool.hpp>
-#include <boost/array.hpp>
+#include <boost/scoped_ptr.hpp>
+#include <new>
 
 namespace envire
 {
@@ -64,57 +65,51 @@ public:
     typedef iterator_base<const Item, const C> const_iterator;
 
 public:
-    ListGrid():mem_pool(new boost::object_pool<Item>()){}
-
-    ListGrid( size_t sizeX, size_t sizeY )
-	: cells( boost::extents[sizeX][sizeY]),
+    ListGrid()
+	: cells( new ArrayType() ),
 	  mem_pool(new boost::object_pool<Item>())
     {
     }
 
-    ~ListGrid(){
-    	delete mem_pool;
+    ListGrid( size_t sizeX, size_t sizeY )
+	: cells( new ArrayType( boost::extents[sizeX][sizeY] ) ),
+	  mem_pool(new boost::object_pool<Item>())
+    {
     }
 
     ListGrid( const ListGrid<C>& other )
+	: cells( new ArrayType( boost::extents[other.cells->shape()[0]][other.cells->shape()[1]] ) ),
+	  mem_pool(new boost::object_pool<Item>())
     {
-	// use the assignment operator
-	this->operator=( other );
+	// for each cell perform a copy
+	for(size_t xi=0;xi<cells->shape()[0];xi++)
+	{
+	    for(size_t yi=0;yi<cells->shape()[1];yi++)
+	    {
+		for( const_iterator it = other.beginCell( xi,yi ); it != other.endCell(); it++ )
+		    insertTail( xi, yi, *it );
+	    }
+	}
     }
 
     ListGrid& operator=( const ListGrid<C>& other )
     {
 	if( &other != this )
 	{
-	    // assert same dimension for grids
-	    assert( other.cells.num_dimensions() == cells.num_dimensions() );
-
-	    // test if shape of cells is the same
-	    // and reshape our cell structure if necessary
-	    if( !std::equal( other.cells.shape(), other.cells.shape() + other.cells.num_dimensions(), cells.shape() ) )
-	    {
-		boost::array<typename ArrayType::index, 2> shape;
-		std::copy( other.cells.shape(), other.cells.shape() + 2, shape.begin() ); 
-		cells.resize( shape );
-	    }
-
-	    // clear cell array of this
-	    clear();
-
-	    // and for each cell perform a copy
-	    for(size_t xi=0;xi<cells.shape()[0];xi++)
-	    {
-		for(size_t yi=0;yi<cells.shape()[1];yi++)
-		{
-		    cells[xi][yi] = NULL;
-		    for( const_iterator it = other.beginCell( xi,yi ); it != other.endCell(); it++ )
-			insertTail( xi, yi, *it );
-		}
-	    }
+	    ListGrid<C> copy( other );
+	    swap( copy );
 	}
 
 	return *this;
     }
+
+    /** exchange the content with another grid. Does not throw. 
+     */
+    void swap( ListGrid<C>& other )
+    {
+	cells.swap( other.cells );
+	mem_pool.swap( other.mem_pool );
+    }
     
     /**
      * Moves the contents of the grid by 
@@ -124,22 +119,17 @@ public:
      * */
     void move(int xd, int yd)
     {
-        if(abs(xd) >= cells.shape()[0] || abs(yd) >= cells.shape()[1] )
+        int width = cells->shape()[0];
+        int height = cells->shape()[1];
+
+        if(abs(xd) >= width || abs(yd) >= height )
         {
             clear();
             return;
         }
         
-        //copy grid to tempgrid
-        ArrayType tmp;
-        boost::array<typename ArrayType::index, 2> shape;
-        std::copy( cells.shape(), cells.shape() + 2, shape.begin() ); 
-        tmp.resize(shape);
-
-        int width = cells.shape()[0];
-        int height = cells.shape()[1];
-
-        boost::swap(tmp, cells);
+        boost::scoped_ptr<ArrayType> tmp( new ArrayType( boost::extents[width][height] ) );
+        tmp.swap( cells );
 
         for(int x = 0; x < width; x++)
         {
@@ -151,7 +141,7 @@ public:
                 {
                     //cell moved off the grid
                     //delete all entries
-                    Item *p = tmp[x][y];
+                    Item *p = (*tmp)[x][y];
                     while(p)
                     {
                         Item *cur = p;
@@ -161,7 +151,10 @@ public:
                 }
                 else
                 {
-                    cells[newX][newY] = tmp[x][y];
+                    Item *p = (*tmp)[x][y];
+                    (*cells)[newX][newY] = p;
+                    if( p )
+                        p->pthis = &(*cells)[newX][newY];
                 }
             }
         }        
@@ -171,8 +164,8 @@ public:
      */
     void resize( size_t sizeX, size_t sizeY )
     {
-	clear();
-	cells.resize( boost::extents[sizeX][sizeY] );
+	ListGrid<C> empty( sizeX, sizeY );
+	swap( empty );
     }
 
     /** Returns the iterator on the first registered patch at \c xi and \c
@@ -180,7 +173,7 @@ public:
      */
     iterator beginCell( size_t xi, size_t yi )
     {
-	return iterator( cells[xi][yi] );
+	return iterator( (*cells)[xi][yi] );
     }
 
     /** Returns the first const iterator on the first registered patch at \c
@@ -188,7 +181,7 @@ public:
      */
     const_iterator beginCell( size_t xi, size_t yi ) const
     {
-	return const_iterator( cells[xi][yi] );
+	return const_iterator( (*cells)[xi][yi] );
     }
 
     /** Returns the past-the-end iterator for cell iteration */
@@ -208,13 +201,15 @@ public:
     void insertHead( size_t xi, size_t yi, const C& value )
     {
 	Item* n_item = mem_pool->malloc();
+	if( !n_item )
+	    throw std::bad_alloc();
 	static_cast<C&>(*n_item).operator=(value);
-	n_item->next = cells[xi][yi];
-	n_item->pthis = &cells[xi][yi];
+	n_item->next = (*cells)[xi][yi];
+	n_item->pthis = &(*cells)[xi][yi];
 	if( n_item->next )
 	    n_item->next->pthis = &n_item->next;
 
-	cells[xi][yi] = n_item;
+	(*cells)[xi][yi] = n_item;
     }
     
     /** Inserts a new surface patch at the end of the patch list at
@@ -231,6 +226,8 @@ public:
 	}
 
 	Item* n_item = mem_pool->malloc();
+	if( !n_item )
+	    throw std::bad_alloc();
 	static_cast<C&>(*n_item).operator=(value);
 	n_item->next = NULL;
 
@@ -241,8 +238,8 @@ public:
 	}
 	else
 	{
-	    cells[xi][yi] = n_item;
-	    n_item->pthis = &cells[xi][yi];
+	    (*cells)[xi][yi] = n_item;
+	    n_item->pthis = &(*cells)[xi][yi];
 	}
     }
 
@@ -263,18 +260,16 @@ public:
 
     void clear()
     {
-
-    	if (mem_pool) delete mem_pool;
-    	mem_pool = new boost::object_pool<Item>();
-
-    	memset(cells.origin(), 0,sizeof(Item*)*cells.num_elements());
-
+	mem_pool.reset( new boost::object_pool<Item>() );
+	std::fill( cells->data(), cells->data() + cells->num_elements(), static_cast<Item*>( NULL ) );
     }
 
 protected:
     typedef boost::multi_array<Item*,2> ArrayType; 
-    ArrayType cells;
-    boost::object_pool<Item>* mem_pool;
+    /// the items point back to the elements of the array, so it is kept
+    /// together with the pool, and never copied
+    boost::scoped_ptr<ArrayType> cells;
+    boost::scoped_ptr<boost::object_pool<Item> > mem_pool;
 };
 
 }
-- 
2.43.0


From 2724095017d2e8c23242b54cadfc1c1a3bc28bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:49 +0000
Subject: [PATCH 07/58] fix: MLSGrid patch count, index and extents go stale

move() did not update them, assignment kept the index of the old content,
and an allocation failure could leave a stored patch out of the index.
---
 src/maps/MLSGrid.cpp | 52 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 0dd3536..2d51687 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -40,6 +40,7 @@ MLSGrid::MLSGrid(const MLSGrid& other)
     , cells( other.cells )
     , config( other.config )
     , cellcount( other.cellcount )
+    , index( other.index ? new Index( *other.index ) : NULL )
     , extents( other.extents )
 {
 }
@@ -48,9 +49,19 @@ MLSGrid& MLSGrid::operator=(const MLSGrid& other)
 {
     if( this != &other )
     {
+	// make the copies first, so that a failure leaves this grid as it was
+	ListGrid<SurfacePatch> otherCells( other.cells );
+	boost::shared_ptr<Index> otherIndex;
+	if( index || other.index )
+	{
+	    otherIndex.reset( new Index() );
+	    other.generateIndex( otherIndex );
+	}
+
 	GridBase::operator=(other);
 
-	cells = other.cells;
+	cells.swap( otherCells );
+	index.swap( otherIndex );
 	extents = other.extents;
 	config = other.config;
 	cellcount = other.cellcount;
@@ -398,12 +409,16 @@ MLSGrid::const_iterator MLSGrid::endCell() const
 
 void MLSGrid::insertHead( size_t xi, size_t yi, const SurfacePatch& value )
 {
+    if( index )
+	index->addCell( Position( xi, yi ) );
     cells.insertHead( xi, yi, value );
     addCell( Position( xi, yi ) );
 }
 
 void MLSGrid::insertTail( size_t xi, size_t yi, const SurfacePatch& value )
 {
+    if( index )
+	index->addCell( Position( xi, yi ) );
     cells.insertTail( xi, yi, value );
     addCell( Position( xi, yi ) );
 }
@@ -754,13 +769,44 @@ void MLSGrid::generateIndex(boost::shared_ptr<Index> gindex) const
 
 void MLSGrid::initIndex()
 {
-   index = boost::shared_ptr<Index>( new Index() ); 
+   boost::shared_ptr<Index> newIndex( new Index() ); 
    if(cellcount > 0)
-       generateIndex(index);
+       generateIndex(newIndex);
+   index = newIndex;
 }
 
 void MLSGrid::move(int x, int y)
 {
+    const int width = cellSizeX, height = cellSizeY;
+
+    boost::shared_ptr<Index> movedIndex;
+    if( index )
+    {
+	movedIndex.reset( new Index() );
+	for( std::set<Position>::const_iterator it = index->cells.begin(); it != index->cells.end(); it++ )
+	{
+	    const long newX = static_cast<long>(it->x) + x, newY = static_cast<long>(it->y) + y;
+	    if( newX >= 0 && newX < width && newY >= 0 && newY < height )
+		movedIndex->addCell( Position( newX, newY ) );
+	}
+    }
+
     cells.move(x, y);
+    index.swap( movedIndex );
+
+    // cells may have left the grid
+    cellcount = 0;
+    extents = CellExtents();
+    for( int xi = 0; xi < width; xi++ )
+    {
+	for( int yi = 0; yi < height; yi++ )
+	{
+	    for( iterator it = cells.beginCell( xi, yi ); it != cells.endCell(); it++ )
+	    {
+		cellcount++;
+		extents.extend( Eigen::Vector2i( xi, yi ) );
+	    }
+	}
+    }
 }
 
-- 
2.43.0


From c8a0e822eb63c4a5cd78d417a3224c47ac2fef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:59 +0000
Subject: [PATCH 08/58] fix: copied TraversabilityGrid writes to the arrays of
 its origin

The cached array pointers were copied, so changes of a copy went to the
origin, and were used after the origin was destroyed.
---
 src/maps/TraversabilityGrid.cpp | 5 +++--
 src/maps/TraversabilityGrid.hpp | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index a632acf..c346c15 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -275,12 +275,13 @@ TraversabilityGrid& TraversabilityGrid::operator=(const TraversabilityGrid& othe
     Grid<uint8_t> *baseGrid = dynamic_cast<Grid<uint8_t> *>(this);
     assert(baseGrid);
     assert(obaseGrid);
+    // the arrays are replaced by the assignment
+    traversabilityArray = NULL;
+    probabilityArray = NULL;
     *baseGrid = *obaseGrid;
 
     traversabilityClasses = other.traversabilityClasses;
 
-    traversabilityArray = NULL;
-    probabilityArray = NULL;
     return *this;
 }
 
diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index d6a483a..d693115 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -152,6 +152,12 @@ public:
     {
     };
 
+    TraversabilityGrid(const TraversabilityGrid &other) : Grid<uint8_t>(other),
+                        traversabilityClasses(other.traversabilityClasses),
+                        probabilityArray(NULL), traversabilityArray(NULL)
+    {
+    };
+
     ~TraversabilityGrid(){};
 
     TraversabilityGrid &operator=(const TraversabilityGrid &other);
-- 
2.43.0


From 2633a2c62b6018162eb9b315491545ee4e77a8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:30 +0000
Subject: [PATCH 09/58] fix: queued events lose an item that is removed and
 added again

---
 src/core/Event.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index e12e565..3ef43b6 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -63,9 +63,9 @@ event::Result Event::merge( const Event& other )
     if(type == other.type && operation == other.operation && id_a == other.id_a && id_b == other.id_b) 
 	return event::INVALIDATE;
 
-    // adding and removing will cancel each other, if the events are otherwise the same
-    if( ((operation == event::REMOVE && other.operation == event::ADD)
-        || (operation == event::ADD && other.operation == event::REMOVE))
+    // removing will cancel a previous adding, if the events are otherwise the same.
+    // The opposite is not true, since what has been added may have a different content
+    if( (operation == event::REMOVE && other.operation == event::ADD)
 	&& type == other.type && id_a == other.id_a && id_b == other.id_b )
 	return event::CANCEL;
 
-- 
2.43.0


From 57ed02ceb60e3c7455f452730347b1c2eb77993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:30 +0000
Subject: [PATCH 10/58] fix: applied updates of missing items are announced
 without item, other classes ignored

---
 src/core/Event.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index 3ef43b6..0e71682 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -108,14 +108,32 @@ struct ApplyEventHelper : public EventDispatcher
 
     ApplyEventHelper( const Event& event, Environment& env ) : event( event ), env( env ), lenient( true ) {}
 
+    // set the content of an item which is already part of the environment
+    void overwrite(EnvironmentItem *item)
+    {
+	if( item->getClassName() == event.a->getClassName() )
+	{
+	    item->set( event.a.get() );
+	    env.itemModified( item );
+	}
+	else if( item == env.getRootNode() )
+	{
+	    throw std::runtime_error("Event could not be applied. The root node can't be replaced by an item of a different class.");
+	}
+	else
+	{
+	    // can't be assigned, so replace the item
+	    env.detachItem( item );
+	    env.attachItem( event.a.get() );
+	}
+    }
+
     void itemAttached(EnvironmentItem *item)
     {
 	if( item && (lenient || item == env.getRootNode()) )
 	{
 	    // item already exists, but we can just overwrite it
-	    item->set( event.a.get() );
-
-	    env.itemModified( item );
+	    overwrite( item );
 	}
 	else
 	{
@@ -130,7 +148,7 @@ struct ApplyEventHelper : public EventDispatcher
 	{
 	    // for the time being copy the whole item
 	    // TODO: implement partial updates
-	    item->set( event.a.get() );
+	    overwrite( item );
 	}
 	else if( lenient )
 	{
@@ -142,8 +160,6 @@ struct ApplyEventHelper : public EventDispatcher
 	{
 	    throw std::runtime_error("Event could not be applied. Item does not exist in environment.");
 	}
-	
-	env.itemModified( item );
     }
 
     void itemDetached(EnvironmentItem *item)
-- 
2.43.0


From 03694561ea641c40d75502c9b2ff2fda7702cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:31 +0000
Subject: [PATCH 11/58] fix: events and calls could create cycles of frames or
 link items of the wrong class

---
 src/core/Environment.cpp  | 10 ++++++++--
 src/core/Event.cpp        | 14 ++++++++++++++
 src/core/EventHandler.cpp | 16 ++++++++--------
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 53c8ca9..12595d0 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -438,7 +438,12 @@ void Environment::itemModified(EnvironmentItem* item)
 
 void Environment::addChild(FrameNode* parent, FrameNode* child)
 {
-    assert( parent != child );
+    // the frame nodes have to form a tree
+    for( FrameNode *fn = parent; fn; fn = getParent( fn ) )
+    {
+	if( fn == child )
+	    throw runtime_error("frame node can't be its own ancestor. " + child->unique_id );
+    }
 
     // don't do anything if relationsship already present
     frameNodeTreeType::iterator it = frameNodeTree.find( child );
@@ -460,7 +465,8 @@ void Environment::addChild(FrameNode* parent, FrameNode* child)
 
 void Environment::addChild(Layer* parent, Layer* child)
 {
-    assert( parent != child );
+    if( parent == child )
+	throw runtime_error("layer can't be its own child. " + child->unique_id );
 
     // don't do anything if relationsship already present
     // note that a child may have several parents
diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index 0e71682..622e706 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -184,6 +184,20 @@ struct ApplyEventHelper : public EventDispatcher
 		throw std::runtime_error("Event could not be applied. Items missing for applying addChild relation.");
 	}
 
+	if( child == env.getRootNode() )
+	    throw std::runtime_error("Event could not be applied. The root node can't be a child.");
+
+	if( lenient && parent != child )
+	{
+	    // if the events which changed the position of the parent have been missed, it
+	    // might still be below the child
+	    FrameNode *fn = env.getParent( parent );
+	    while( fn && fn != child )
+		fn = env.getParent( fn );
+	    if( fn )
+		env.removeChild( env.getParent( parent ), parent );
+	}
+
 	env.addChild( parent, child );
     }
 
diff --git a/src/core/EventHandler.cpp b/src/core/EventHandler.cpp
index b78edbb..cf755e5 100644
--- a/src/core/EventHandler.cpp
+++ b/src/core/EventHandler.cpp
@@ -53,21 +53,21 @@ void EventDispatcher::dispatch( event::Type type, event::Operation operation, En
     else if( type == event::ITEM && operation == event::UPDATE )
 	disp->itemModified( a );
     else if( type == event::FRAMENODE_TREE && operation == event::ADD )
-	disp->childAdded( static_cast<FrameNode*>(a), static_cast<FrameNode*>(b) );
+	disp->childAdded( dynamic_cast<FrameNode*>(a), dynamic_cast<FrameNode*>(b) );
     else if( type == event::FRAMENODE_TREE && operation == event::REMOVE )
-	disp->childRemoved( static_cast<FrameNode*>(a), static_cast<FrameNode*>(b) );
+	disp->childRemoved( dynamic_cast<FrameNode*>(a), dynamic_cast<FrameNode*>(b) );
     else if( type == event::LAYER_TREE && operation == event::ADD )
-	disp->childAdded( static_cast<Layer*>(a), static_cast<Layer*>(b) );
+	disp->childAdded( dynamic_cast<Layer*>(a), dynamic_cast<Layer*>(b) );
     else if( type == event::LAYER_TREE && operation == event::REMOVE )
-	disp->childRemoved( static_cast<Layer*>(a), static_cast<Layer*>(b) );
+	disp->childRemoved( dynamic_cast<Layer*>(a), dynamic_cast<Layer*>(b) );
     else if( type == event::FRAMENODE && operation == event::ADD )
-	disp->frameNodeSet( static_cast<CartesianMap*>(a), static_cast<FrameNode*>(b) );
+	disp->frameNodeSet( dynamic_cast<CartesianMap*>(a), dynamic_cast<FrameNode*>(b) );
     else if( type == event::FRAMENODE && operation == event::REMOVE )
-	disp->frameNodeDetached( static_cast<CartesianMap*>(a), static_cast<FrameNode*>(b) );
+	disp->frameNodeDetached( dynamic_cast<CartesianMap*>(a), dynamic_cast<FrameNode*>(b) );
     else if( type == event::ROOT && operation == event::ADD )
-	disp->setRootNode( static_cast<FrameNode*>(a) );
+	disp->setRootNode( dynamic_cast<FrameNode*>(a) );
     else if( type == event::ROOT && operation == event::REMOVE )
-	disp->removeRootNode( static_cast<FrameNode*>(a) );
+	disp->removeRootNode( dynamic_cast<FrameNode*>(a) );
     else 
 	throw std::runtime_error("Event message not handled");
 }
-- 
2.43.0


From 3ca6249305a3e81a84fee857bbe21aaf6f4e0d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:08 +0000
Subject: [PATCH 12/58] fix: an event that can't be processed makes the queue
 repeat the previous ones

---
 src/core/EventHandler.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/EventHandler.cpp b/src/core/EventHandler.cpp
index cf755e5..2d37794 100644
--- a/src/core/EventHandler.cpp
+++ b/src/core/EventHandler.cpp
@@ -109,11 +109,14 @@ void EventQueue::handle( const Event& message )
 void EventQueue::flush()
 {
     boost::lock_guard<boost::mutex> lock( queueMutex );
-    for( std::list<Event>::iterator it = msgQueue.begin(); it != msgQueue.end(); it++ )
+    while( !msgQueue.empty() )
     {
-	process( *it );
+	// remove the event in any case, so that it is neither processed again
+	// nor blocks the following ones if it can't be processed
+	Event event( msgQueue.front() );
+	msgQueue.pop_front();
+	process( event );
     }
-    msgQueue.clear();
 }
 
 EventProcessor::EventProcessor( Environment *env )
-- 
2.43.0


From a43f8c0b40ea514447df1deebb0b15b562c75a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:08 +0000
Subject: [PATCH 13/58] fix: errors while saving, loading and (un)serializing
 items are ignored, crash or leak

---
 src/core/Environment.cpp   |   5 +-
 src/core/Serialization.cpp | 406 +++++++++++++++++++++----------------
 src/core/Serialization.hpp |  22 +-
 3 files changed, 258 insertions(+), 175 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 12595d0..baae360 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -116,7 +116,7 @@ void EnvironmentItem::unserialize(Serialization &so)
     so.read( "id", unique_id );
 
     // For backward compatibility
-    if (*unique_id.begin() != '/')
+    if (unique_id.empty() || *unique_id.begin() != '/')
         unique_id = "/" + unique_id;
 
     so.read( "label", label );
@@ -856,7 +856,8 @@ void Environment::serialize(std::string const& path)
     boost::filesystem::create_directories( path );
 
     serialization.setSceneDir(sceneDir.string());
-    serialization.writeToFile( this, scene.string() );
+    if( !serialization.writeToFile( this, scene.string() ) )
+	throw std::runtime_error("envire: could not write " + scene.string());
 }
 
 Environment* Environment::unserialize(std::string const& path)
diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 7b73884..0125300 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -6,6 +6,7 @@
 #include <stdlib.h>
 #include <iterator>
 #include <algorithm>
+#include <memory>
 
 #include "Serialization.hpp"
 #include "Operator.hpp"
@@ -31,9 +32,6 @@ namespace envire
         yaml_document_t document;
 
         int current_node;
-
-        vector<yaml_char_t*> buffers;
-        
         
         YAMLSerializationImpl();
         
@@ -54,16 +52,74 @@ namespace envire
         int addToSequence(int seq_id, int node_id);
     };
 
+    // the following classes release the yaml objects and files at the end of
+    // the scope, also if there was an exception
+    struct YAMLEmitter
+    {
+        yaml_emitter_t &emitter;
+        YAMLEmitter( yaml_emitter_t &emitter ) : emitter( emitter )
+        {
+            if( !yaml_emitter_initialize( &emitter ) )
+                throw std::runtime_error("could not generate yaml emitter");
+        }
+        ~YAMLEmitter() { yaml_emitter_delete( &emitter ); }
+    };
+
+    struct YAMLParser
+    {
+        yaml_parser_t &parser;
+        YAMLParser( yaml_parser_t &parser ) : parser( parser )
+        {
+            if( !yaml_parser_initialize( &parser ) )
+                throw std::runtime_error("could not generate yaml parser");
+        }
+        ~YAMLParser() { yaml_parser_delete( &parser ); }
+    };
+
+    struct YAMLDocument
+    {
+        yaml_document_t &document;
+        // generates an empty document
+        YAMLDocument( yaml_document_t &document ) : document( document )
+        {
+            if( !yaml_document_initialize(&document, NULL, NULL, NULL, 1, 1) )
+                throw std::runtime_error("could not generate yaml document");
+        }
+        // loads the document
+        YAMLDocument( yaml_document_t &document, yaml_parser_t &parser, const std::string& source ) : document( document )
+        {
+            if( !yaml_parser_load(&parser, &document) )
+            {
+                std::cerr << source << ":"
+                    << parser.problem_mark.line << ":"
+                    << (parser.problem ? parser.problem : "");
+                throw std::runtime_error("error parsing yaml stream.");
+            }
+        }
+        ~YAMLDocument() { yaml_document_delete( &document ); }
+    };
+
+    struct File
+    {
+        FILE *file;
+        File( const std::string& path, const char* mode ) : file( fopen( path.c_str(), mode ) ) {}
+        ~File() { if( file ) fclose( file ); }
+        bool close()
+        {
+            FILE *f = file;
+            file = NULL;
+            return fclose( f ) == 0;
+        }
+    };
+
     template<>
 	int YAMLSerializationImpl::addScalar( const std::string &value, yaml_scalar_style_t style )
 	{
-	    size_t len = value.length();
-
-	    yaml_char_t* buf = new yaml_char_t[len];
-	    value.copy(reinterpret_cast<char*>(buf), len);
-	    buffers.push_back( buf );
-
-	    int key_index = yaml_document_add_scalar( &document, NULL, buf, len, style );
+	    // the document holds its own copy of the value
+	    int key_index = yaml_document_add_scalar( &document, NULL,
+		    reinterpret_cast<yaml_char_t*>(const_cast<char*>(value.data())), value.length(), style );
+	    if( !key_index )
+		throw std::runtime_error("could not add scalar to the yaml document");
 
 	    return key_index;
 	}
@@ -91,24 +147,33 @@ bool YAMLSerializationImpl::addNodeToMap( const std::string &key, int value_inde
 bool YAMLSerializationImpl::addNodeToMap( int map_index, const std::string &key, int value_index )
 {
     int key_index = addScalar( key, YAML_PLAIN_SCALAR_STYLE );
-    yaml_document_append_mapping_pair(&document, map_index, key_index, value_index);
+    if( !yaml_document_append_mapping_pair(&document, map_index, key_index, value_index) )
+	throw std::runtime_error("could not add " + key + " to the yaml document");
 
     return true;
 }
 
 int YAMLSerializationImpl::addSequenceNode(yaml_sequence_style_t style)
 {
-    return yaml_document_add_sequence(&document, NULL, style);
+    int seq_index = yaml_document_add_sequence(&document, NULL, style);
+    if( !seq_index )
+	throw std::runtime_error("could not add sequence to the yaml document");
+    return seq_index;
 }
 
 int YAMLSerializationImpl::addMapNode(yaml_mapping_style_t style)
 {
-    return yaml_document_add_mapping(&document, NULL, style);
+    int map_index = yaml_document_add_mapping(&document, NULL, style);
+    if( !map_index )
+	throw std::runtime_error("could not add mapping to the yaml document");
+    return map_index;
 }
 
 int YAMLSerializationImpl::addToSequence(int seq_id, int node_id)
 {
-    return yaml_document_append_sequence_item( &document, seq_id, node_id );
+    if( !yaml_document_append_sequence_item( &document, seq_id, node_id ) )
+	throw std::runtime_error("could not add item to the yaml document");
+    return true;
 }
 
 int YAMLSerializationImpl::findNodeInMap( const std::string &key )
@@ -120,7 +185,8 @@ int YAMLSerializationImpl::findNodeInMap( int map_index, const std::string &key
 {
     yaml_node_t *map = getNode( map_index );
 
-    assert( map->type == YAML_MAPPING_NODE );
+    if( !map || map->type != YAML_MAPPING_NODE )
+        throw std::runtime_error("not a mapping node");
 
     int node = 0;
 
@@ -152,7 +218,7 @@ std::string YAMLSerializationImpl::getScalar( int node_index )
 
     if( node && node->type == YAML_SCALAR_NODE )
     {
-        return std::string( reinterpret_cast<const char*>(node->data.scalar.value) );
+        return std::string( reinterpret_cast<const char*>(node->data.scalar.value), node->data.scalar.length );
     }
     throw std::runtime_error("not a scalar node");
 }
@@ -205,8 +271,9 @@ void Serialization::write(const std::string& key, const TransformWithUncertainty
 
 void Serialization::begin()
 {
-    yaml_document_initialize(&yamlSerialization->document, NULL, NULL, NULL, 1, 1);
-    int obj_id = yaml_document_add_sequence(&yamlSerialization->document, NULL, YAML_ANY_SEQUENCE_STYLE);
+    if( !yaml_document_initialize(&yamlSerialization->document, NULL, NULL, NULL, 1, 1) )
+	throw std::runtime_error("could not generate yaml document");
+    int obj_id = yamlSerialization->addSequenceNode();
     yamlSerialization->current_node = yamlSerialization->addMapNode();
     yamlSerialization->addToSequence( obj_id, yamlSerialization->current_node );
 }
@@ -229,7 +296,7 @@ bool Serialization::read(const std::string &key, std::string &value)
         value = yamlSerialization->getScalar( yamlSerialization->findNodeInMap( key ) );
         return true;
     }
-    catch(...)
+    catch(const std::runtime_error&)
     {
         std::cerr << "WARN: could not read scalar for " << key << std::endl;
         return false;
@@ -241,13 +308,16 @@ bool Serialization::read(const std::string& key, Transform &value)
     int node_index = yamlSerialization->findNodeInMap( key );
     yaml_node_t* node = yamlSerialization->getNode( node_index );
     
-    if( node->type != YAML_SEQUENCE_NODE )
+    if( !node || node->type != YAML_SEQUENCE_NODE )
         throw std::runtime_error("can't read TransformType");
 
     int i=0;
     for(yaml_node_item_t* item=node->data.sequence.items.start;
             item < node->data.sequence.items.top; item++)
     {
+        if( i >= value.matrix().rows() * value.matrix().cols() )
+            throw std::runtime_error("matrix dimension incompatible");
+
         std::string t(yamlSerialization->getScalar( *item ) );
 
         value( i / value.matrix().rows(), i % value.matrix().rows() ) =
@@ -266,13 +336,16 @@ bool Serialization::read(const std::string& key, TransformWithUncertainty::Covar
     int node_index = yamlSerialization->findNodeInMap( key );
     yaml_node_t* node = yamlSerialization->getNode( node_index );
     
-    if( node->type != YAML_SEQUENCE_NODE )
+    if( !node || node->type != YAML_SEQUENCE_NODE )
         throw std::runtime_error("can't read TransformType");
 
     int i=0;
     for(yaml_node_item_t* item=node->data.sequence.items.start;
             item < node->data.sequence.items.top; item++)
     {
+        if( i >= value.rows() * value.cols() )
+            throw std::runtime_error("matrix dimension incompatible");
+
         std::string t(yamlSerialization->getScalar( *item ) );
 
         value( i / value.rows(), i % value.rows() ) =
@@ -306,6 +379,37 @@ FileSerialization::FileSerialization()
 
 FileSerialization::~FileSerialization()
 {
+    closeStreams();
+}
+
+bool FileSerialization::closeStreams()
+{
+    bool result = true;
+
+    for(std::vector<std::ifstream*>::iterator it = ifstreams.begin(); it != ifstreams.end(); it++)
+    {
+        if((*it)->is_open())
+        {
+            (*it)->close();
+        }
+        delete *it;
+    }
+    ifstreams.clear();
+
+    for(std::vector<std::ofstream*>::iterator it = ofstreams.begin(); it != ofstreams.end(); it++)
+    {
+        if((*it)->is_open())
+        {
+            (*it)->close();
+        }
+        // this includes errors when writing the remaining data
+        if((*it)->fail())
+            result = false;
+        delete *it;
+    }
+    ofstreams.clear();
+
+    return result;
 }
 
 const std::string FileSerialization::getMapPath() const
@@ -322,9 +426,11 @@ std::istream& FileSerialization::getBinaryInputStream(const std::string &filenam
 {
     boost::filesystem::path fileDir(sceneDir);
     fileDir = fileDir / filename;
+    ifstreams.reserve( ifstreams.size() + 1 );
     std::ifstream *is = new std::ifstream(fileDir.string().c_str());
     if( !is->is_open() || is->fail() )
     {
+        delete is;
         throw NoSuchBinaryStream("could not open file " + filename);
     }
     ifstreams.push_back(is);
@@ -335,9 +441,11 @@ std::ostream& FileSerialization::getBinaryOutputStream(const std::string &filena
 {
     boost::filesystem::path fileDir(sceneDir);
     fileDir = fileDir / filename;
+    ofstreams.reserve( ofstreams.size() + 1 );
     std::ofstream *os = new std::ofstream(fileDir.string().c_str());
     if( !os->is_open() || os->fail() )
     {
+        delete os;
         throw NoSuchBinaryStream("could not open file " + filename);
     }
     ofstreams.push_back(os);
@@ -346,31 +454,21 @@ std::ostream& FileSerialization::getBinaryOutputStream(const std::string &filena
 
 bool FileSerialization::writeToFile( Environment *env, const std::string &path )
 {
-    yaml_emitter_initialize(&yamlSerialization->emitter);
-    FILE *output = fopen(path.c_str(), "wb");
-    if( !output )
+    File output( path, "wb" );
+    if( !output.file )
 	throw runtime_error("envire: could not open " + path + " for writing");
 
-    yaml_emitter_set_output_file(&yamlSerialization->emitter, output);
+    YAMLEmitter emitter( yamlSerialization->emitter );
+    yaml_emitter_set_output_file(&yamlSerialization->emitter, output.file);
 
     // build up document
-    if( !yaml_document_initialize(&yamlSerialization->document, NULL, NULL, NULL, 1, 1) )
-    {
-	yaml_emitter_delete(&yamlSerialization->emitter);
-	fclose( output );
-	throw std::runtime_error("could not generate yaml document");
-    }
+    YAMLDocument document( yamlSerialization->document );
     
     // same as with readFile, creating a dom structure for new is easier.
     int obj_id, link_id, root_id;
-    root_id = yaml_document_add_mapping(
-	    &yamlSerialization->document, NULL, YAML_ANY_MAPPING_STYLE);
-
-    obj_id = yaml_document_add_sequence(
-	    &yamlSerialization->document, NULL, YAML_ANY_SEQUENCE_STYLE);
-
-    link_id = yaml_document_add_sequence(
-	    &yamlSerialization->document, NULL, YAML_ANY_SEQUENCE_STYLE);
+    root_id = yamlSerialization->addMapNode();
+    obj_id = yamlSerialization->addSequenceNode();
+    link_id = yamlSerialization->addSequenceNode();
 
     yamlSerialization->addNodeToMap( root_id, "objects", obj_id );
     yamlSerialization->addNodeToMap( root_id, "links", link_id );
@@ -442,38 +540,15 @@ bool FileSerialization::writeToFile( Environment *env, const std::string &path )
 	yamlSerialization->addNodeToMap( "node", yamlSerialization->addScalar((*it).second->getUniqueId()) );
     }
 
-    // the emitter will destroy the document objects for us.
-    // what it will not do however, is destroy the buffers for the scalar values.
-    // (damn... maybe using an object was not the smartest choice. Events would
-    // have done just as fine... next time)
-    // So what we have to do is extract a list of all the scalars here and free them
-    // afterwards
-
-    int result = yaml_emitter_dump( &yamlSerialization->emitter, &yamlSerialization->document );
-
-    for(vector<yaml_char_t*>::iterator it=yamlSerialization->buffers.begin();it<yamlSerialization->buffers.end();it++)
-    {
-	delete[] *it;
-    }
-    yamlSerialization->buffers.clear();
+    bool result = yaml_emitter_dump( &yamlSerialization->emitter, &yamlSerialization->document );
 
-    yaml_emitter_delete(&yamlSerialization->emitter);
-    yaml_document_delete(&yamlSerialization->document);
-    fclose( output );
-    
-    // close and delete ofstreams
-    if(ofstreams.size() > 0)
-    {
-        for(std::vector<std::ofstream*>::iterator it = ofstreams.begin(); it != ofstreams.end(); it++)
-        {
-            if((*it)->is_open())
-            {
-                (*it)->close();
-            }
-            delete *it;
-        }
-        ofstreams.clear();
-    }
+    // some of the data might only be written when the files are closed
+    if( ferror( output.file ) )
+	result = false;
+    if( !output.close() )
+	result = false;
+    if( !closeStreams() )
+	result = false;
     
     return result;
 }
@@ -482,7 +557,7 @@ template<typename MapType>
 static MapType* getMap(YAMLSerializationImpl* yaml, Environment* env, const char* key)
 {
     std::string map_id = yaml->getScalarInMap<std::string>(key);
-    if (*map_id.begin() != '/')
+    if (map_id.empty() || *map_id.begin() != '/')
         map_id = "/" + map_id;
 
     MapType* map = env->getItem<MapType>(map_id).get();
@@ -493,40 +568,32 @@ static MapType* getMap(YAMLSerializationImpl* yaml, Environment* env, const char
 
 Environment* FileSerialization::readFromFile( const std::string& path )
 {
-    Environment* env;
-    
     int64_t lastID = 0;
 
-    FILE *input = fopen(path.c_str(), "rb");
-    yaml_parser_initialize(&yamlSerialization->parser);
-    yaml_parser_set_input_file(&yamlSerialization->parser, input);
+    File input( path, "rb" );
+    if( !input.file )
+	throw std::runtime_error("envire: could not open " + path + " for reading");
+
+    YAMLParser parser( yamlSerialization->parser );
+    yaml_parser_set_input_file(&yamlSerialization->parser, input.file);
 
     // for now lets ignore SAX-like streaming, and parse the whole
     // document into a document structure. This makes it a little easier
     // to extract.
-
-    if(!yaml_parser_load(&yamlSerialization->parser, &yamlSerialization->document))
-    {
-	// doubled the cleanup code... not nice.
-	yaml_parser_delete(&yamlSerialization->parser);
-	fclose(input);
-
-	std::cerr << path << ":" 
-	    << yamlSerialization->parser.problem_mark.line << ":"
-	    << yamlSerialization->parser.problem;
-	throw std::runtime_error("error parsing yaml stream.");
-    }
+    YAMLDocument document( yamlSerialization->document, yamlSerialization->parser, path );
 
     // do the extraction now
     yaml_node_t* root = yaml_document_get_root_node(&yamlSerialization->document);
+    std::auto_ptr<Environment> env;
 
     if( root && root->type == YAML_MAPPING_NODE )
     {
 	// create a new environment
-	env = new Environment();
+	env.reset( new Environment() );
 	// and remove the root node
 	EnvironmentItem* rootNode = env->getRootNode();
 	env->detachItem( rootNode );
+	env->rootNode = NULL;
 
 	// browse root mapping for object or links	
 	for(yaml_node_pair_t* pair=root->data.mapping.pairs.start;
@@ -535,7 +602,7 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 	    std::string key = yamlSerialization->getScalar( pair->key );
 	    yaml_node_t* list = yaml_document_get_node(&yamlSerialization->document, pair->value );
 
-	    if( list->type == YAML_SEQUENCE_NODE )
+	    if( list && list->type == YAML_SEQUENCE_NODE )
 	    {
 		// loop through items in the sequence
 		for(yaml_node_item_t* item=list->data.sequence.items.start;
@@ -551,14 +618,15 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 			yamlSerialization->current_node = *item;
 
 			// create item and attach to environment
-			EnvironmentItem* envItem = 
-			    SerializationFactory::createObject(className, *this);
+			EnvironmentItem::Ptr envItem(
+			    SerializationFactory::createObject(className, *this) );
 
-			env->attachItem( envItem );
+			env->attachItem( envItem.get() );
 			//hack to preserve root node
 			if(envItem->getUniqueId() == "0" || envItem->getUniqueId() == "/0") {
-			    env->rootNode = dynamic_cast<FrameNode *>(envItem);
-			    assert(env->rootNode);
+			    env->rootNode = dynamic_cast<FrameNode *>(envItem.get());
+			    if( !env->rootNode )
+				throw std::runtime_error("root of the scene is not a frame node.");
 			}
 			
                         std::string currentID = envItem->getUniqueIdSuffix();
@@ -579,37 +647,32 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "frameNodeTree" )
 			{
-			    env->frameNodeTree.insert( make_pair( 
-					getMap<FrameNode>(yamlSerialization, env, "child"), 
-					getMap<FrameNode>(yamlSerialization, env, "parent") ) );
+			    FrameNode* child = getMap<FrameNode>(yamlSerialization, env.get(), "child");
+			    env->addChild( getMap<FrameNode>(yamlSerialization, env.get(), "parent"), child );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "layerTree" )
 			{
-			    env->layerTree.insert( make_pair( 
-                                        getMap<Layer>(yamlSerialization, env, "child"),
-                                        getMap<Layer>(yamlSerialization, env, "parent") ));
+			    Layer* child = getMap<Layer>(yamlSerialization, env.get(), "child");
+			    env->addChild( getMap<Layer>(yamlSerialization, env.get(), "parent"), child );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "operatorGraphInput" )
 			{
-			    env->operatorGraphInput.insert( make_pair( 
-                                        getMap<Operator>(yamlSerialization, env, "operator"),
-                                        getMap<Layer>(yamlSerialization, env, "layer")) );
+			    getMap<Operator>(yamlSerialization, env.get(), "operator")->addInput(
+				    getMap<Layer>(yamlSerialization, env.get(), "layer") );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "operatorGraphOutput" )
 			{
-			    env->operatorGraphOutput.insert( make_pair( 
-                                        getMap<Operator>(yamlSerialization, env, "operator"),
-                                        getMap<Layer>(yamlSerialization, env, "layer")) );
+			    getMap<Operator>(yamlSerialization, env.get(), "operator")->addOutput(
+				    getMap<Layer>(yamlSerialization, env.get(), "layer") );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "cartesianMapGraph" )
 			{
-			    env->cartesianMapGraph.insert( make_pair( 
-                                        getMap<CartesianMap>(yamlSerialization, env, "map"),
-                                        getMap<FrameNode>(yamlSerialization, env, "node")) );
+			    CartesianMap* map = getMap<CartesianMap>(yamlSerialization, env.get(), "map");
+			    env->setFrameNode( map, getMap<FrameNode>(yamlSerialization, env.get(), "node") );
 			}
 		    }
 		}
@@ -622,29 +685,15 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 	throw std::runtime_error("empty document.");
     }
 
+    if( !env->rootNode || env->getParent( env->rootNode ) )
+	throw std::runtime_error("scene has no root node.");
+
     lastID++;
     env->last_id = lastID;
 
-    // clean up
-    yaml_document_delete(&yamlSerialization->document);
-    yaml_parser_delete(&yamlSerialization->parser);
-    fclose(input);
-    
-    // close and delete ifstreams
-    if(ifstreams.size() > 0)
-    {
-        for(std::vector<std::ifstream*>::iterator it = ifstreams.begin(); it != ifstreams.end(); it++)
-        {
-            if((*it)->is_open())
-            {
-                (*it)->close();
-            }
-            delete *it;
-        }
-        ifstreams.clear();
-    }
+    closeStreams();
 
-    return env;
+    return env.release();
 }
 
 
@@ -656,20 +705,29 @@ BinarySerialization::BinarySerialization()
 
 BinarySerialization::~BinarySerialization()
 {
+    cleanUp();
 }
 
 std::istream& BinarySerialization::getBinaryInputStream(const std::string &filename)
 {
-    if(stringstreams[filename] == 0)
+    std::map<std::string, std::stringstream*>::iterator it = stringstreams.find(filename);
+    if(it == stringstreams.end())
         throw NoSuchBinaryStream("there is no binary input stream called " + filename);
-    return *stringstreams[filename];
+    return *it->second;
 }
 
 std::ostream& BinarySerialization::getBinaryOutputStream(const std::string &filename)
 {
-    std::stringstream* ostream = new std::stringstream();
-    stringstreams[filename] = ostream;
-    return *ostream;
+    return addStream(filename);
+}
+
+std::stringstream& BinarySerialization::addStream(const std::string &filename)
+{
+    std::auto_ptr<std::stringstream> stream( new std::stringstream() );
+    std::stringstream*& entry = stringstreams[filename];
+    delete entry;
+    entry = stream.release();
+    return *entry;
 }
 
 void BinarySerialization::applyEvents(envire::Environment* env,
@@ -701,23 +759,19 @@ void BinarySerialization::applyEvent(envire::Environment* env, const EnvireBinar
 
 EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryEvent& bin_item)
 {
+    // there might be remains of an item that could not be read
+    cleanUp();
+
     // set up yaml document
-    yaml_parser_initialize(&yamlSerialization->parser);
-    
+    YAMLParser parser( yamlSerialization->parser );
     yaml_parser_set_input_string(&yamlSerialization->parser, reinterpret_cast<const unsigned char*>(bin_item.yamlProperties.data()), bin_item.yamlProperties.size());
-    if(!yaml_parser_load(&yamlSerialization->parser, &yamlSerialization->document))
-    {
-        yaml_parser_delete(&yamlSerialization->parser);
-
-        std::cerr << bin_item.className << " " << bin_item.id_a << ":" 
-            << yamlSerialization->parser.problem_mark.line << ":"
-            << yamlSerialization->parser.problem;
-        throw std::runtime_error("error parsing yaml stream.");
-    }
+    YAMLDocument document( yamlSerialization->document, yamlSerialization->parser, bin_item.className + " " + bin_item.id_a );
     
     // set up yaml node
     yamlSerialization->current_node = -1;
     yaml_node_t* root = yaml_document_get_root_node(&yamlSerialization->document);
+    if( !root || root->type != YAML_SEQUENCE_NODE )
+        throw std::runtime_error("can't find class information in yaml stream.");
     for(yaml_node_item_t* item=root->data.sequence.items.start;
             item < root->data.sequence.items.top; item++)
     {
@@ -738,10 +792,11 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     {
         if(bin_item.binaryStreams.size() > i)
         {
-            std::stringstream *istream = new std::stringstream();
+            std::stringstream &istream = addStream(bin_item.binaryStreamNames[i]);
             const std::vector<uint8_t> &bin_stream = bin_item.binaryStreams[i];
-            std::copy(bin_stream.begin(), bin_stream.end(), ostream_iterator<uint8_t>(*istream));
-            stringstreams[bin_item.binaryStreamNames[i]] = istream;
+            std::copy(bin_stream.begin(), bin_stream.end(), ostream_iterator<uint8_t>(istream));
+            if( !istream )
+                throw std::runtime_error("could not set up binary stream " + bin_item.binaryStreamNames[i]);
         }
     }
     
@@ -749,13 +804,26 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     EnvironmentItem* item = SerializationFactory::createObject(bin_item.className, *this);
     
     //clean up
-    yaml_document_delete(&yamlSerialization->document);
-    yaml_parser_delete(&yamlSerialization->parser);
     cleanUp();
     
     return item;
 }
 
+// write handler for the yaml emitter
+static int appendToVector(void *data, unsigned char *buffer, size_t size)
+{
+    std::vector<uint8_t> &target( *static_cast<std::vector<uint8_t>*>(data) );
+    try
+    {
+        target.insert( target.end(), buffer, buffer + size );
+        return 1;
+    }
+    catch( const std::exception& )
+    {
+        return 0;
+    }
+}
+
 bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBinaryEvent& bin_item)
 {
     assert(item);
@@ -764,23 +832,19 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     bin_item.yamlProperties.clear();
     bin_item.binaryStreamNames.clear();
     bin_item.binaryStreams.clear();
+
+    // there might be remains of an item that could not be written
+    cleanUp();
     
     // config yaml
-    yaml_emitter_initialize(&yamlSerialization->emitter);
-    bin_item.yamlProperties.resize(10000,0);
-    size_t size_written = 0;
-    yaml_emitter_set_output_string(&yamlSerialization->emitter, reinterpret_cast<unsigned char*>(bin_item.yamlProperties.data()),
-                                   bin_item.yamlProperties.size(), &size_written);
+    YAMLEmitter emitter( yamlSerialization->emitter );
+    yaml_emitter_set_output(&yamlSerialization->emitter, &appendToVector, &bin_item.yamlProperties);
     
     // build up document
-    if( !yaml_document_initialize(&yamlSerialization->document, NULL, NULL, NULL, 1, 1) )
-    {
-        yaml_emitter_delete(&yamlSerialization->emitter);
-        throw std::runtime_error("could not generate yaml document");
-    }
+    YAMLDocument document( yamlSerialization->document );
     
     // write document
-    int obj_id = yaml_document_add_sequence(&yamlSerialization->document, NULL, YAML_ANY_SEQUENCE_STYLE);
+    int obj_id = yamlSerialization->addSequenceNode();
     yamlSerialization->current_node = yamlSerialization->addMapNode();
     yamlSerialization->addToSequence( obj_id, yamlSerialization->current_node );
     yamlSerialization->addNodeToMap( "class", yamlSerialization->addScalar( item->getClassName() ));
@@ -789,14 +853,15 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     item->serialize(*this);
     
     // write yaml document to yaml stream
-    int result = yaml_emitter_dump( &yamlSerialization->emitter, &yamlSerialization->document );
-    bin_item.yamlProperties.resize(size_written,0);
+    bool result = yaml_emitter_dump( &yamlSerialization->emitter, &yamlSerialization->document );
     
     // fill binary streams
     for(std::map<std::string, std::stringstream*>::iterator it = stringstreams.begin(); it != stringstreams.end(); it++)
     {
         std::vector<uint8_t> bin_vector;
         std::stringstream& ostream = *it->second;
+        if( !ostream )
+            result = false;
         ostream >> std::noskipws;
         std::copy(istream_iterator<uint8_t>(ostream), istream_iterator<uint8_t>(), std::back_inserter(bin_vector));
         bin_item.binaryStreamNames.push_back(it->first);
@@ -804,13 +869,6 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     }
 
     // clean up
-    for(vector<yaml_char_t*>::iterator it=yamlSerialization->buffers.begin();it<yamlSerialization->buffers.end();it++)
-    {
-        delete[] *it;
-    }
-    yamlSerialization->buffers.clear();
-    yaml_emitter_delete(&yamlSerialization->emitter);
-    yaml_document_delete(&yamlSerialization->document);
     cleanUp();
     
     return result;
@@ -906,9 +964,13 @@ void SynchronizationEventHandler::addBinaryEvent( const envire::Event& message )
     std::string id_a = message.a ? message.a->getUniqueId() : message.id_a;
     std::string id_b = message.b ? message.b->getUniqueId() : message.id_b;
     
-    msg_buffer.push_back( EnvireBinaryEvent(message.type, message.operation, id_a, id_b) );
+    EnvireBinaryEvent event(message.type, message.operation, id_a, id_b);
     if(message.type == event::ITEM && ( message.operation == event::ADD || message.operation == event::UPDATE ))
-        serialization.serializeBinaryEvent(message.a.get(), msg_buffer.back());
+    {
+        if( !serialization.serializeBinaryEvent(message.a.get(), event) )
+            throw std::runtime_error("could not serialize item " + id_a);
+    }
+    msg_buffer.push_back( event );
 }
 
 void SynchronizationEventHandler::useEventQueue(bool b)
diff --git a/src/core/Serialization.hpp b/src/core/Serialization.hpp
index d1f056c..bf0b486 100644
--- a/src/core/Serialization.hpp
+++ b/src/core/Serialization.hpp
@@ -20,7 +20,15 @@ namespace envire
     template<class T> EnvironmentItem* createItem(Serialization &so) 
     {
         T* o = new T();
-        o->unserialize(so);
+        try
+        {
+            o->unserialize(so);
+        }
+        catch( ... )
+        {
+            delete o;
+            throw;
+        }
         return o;
     }
     
@@ -197,6 +205,13 @@ namespace envire
          * @return the serialization path
          */
         virtual const std::string getMapPath() const;
+
+    protected:
+        /**
+         * Closes and deletes all streams
+         * @return true if everything that went to the output streams has been written
+         */
+        bool closeStreams();
     };
     
     /**
@@ -259,6 +274,11 @@ namespace envire
          * Deletes all entries of stringstreams.
          */
         void cleanUp();
+
+        /**
+         * Adds an empty stream to stringstreams.
+         */
+        std::stringstream& addStream(const std::string &filename);
     };
     
     
-- 
2.43.0


From 353a1bfc0b85493800045d364da7371aaa53a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:08 +0000
Subject: [PATCH 14/58] fix: context updates fail for copied items and maps
 without frame

---
 src/core/Serialization.cpp | 4 ++--
 src/core/Serialization.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 0125300..f0d926a 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -925,13 +925,13 @@ void SynchronizationEventHandler::process(const envire::Event& message)
 	    // we might actually be working on a copy of the original item
 	    // in case the event got queued. For this reason, try to get the
 	    // original item back
-	    if( !item ) 
+	    if( !item || !item->isAttached() ) 
 		item = m_env->getItem( message.id_a ).get();
 
 	    // in case we have a cartesian map, also provide the full framenode
 	    // information for it
 	    CartesianMap *map = dynamic_cast<CartesianMap*>( item );
-	    if( map )
+	    if( map && map->getFrameNode() )
 	    {
 		// add all framenodes (as update events)
 		FrameNode *fn = map->getFrameNode(), *child = NULL;
diff --git a/src/core/Serialization.hpp b/src/core/Serialization.hpp
index bf0b486..0e490fd 100644
--- a/src/core/Serialization.hpp
+++ b/src/core/Serialization.hpp
@@ -301,7 +301,7 @@ namespace envire
     {
     public:
         SynchronizationEventHandler() 
-	    : m_useEventQueue(false), m_useContextUpdates(false) {};
+	    : m_useEventQueue(false), m_useContextUpdates(false), m_env(NULL) {};
 
 	/** @brief callback for binary events
 	 */
-- 
2.43.0


From 1dd2925df6d5e9978b44bc6644c79968e25e3adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:57 +0000
Subject: [PATCH 15/58] fix: grids without frame can't be saved, short and
 failed reads and writes of grids are ignored

---
 src/maps/Grid.hpp     | 64 ++++++++++++++++++++++++++++++++++++-------
 src/maps/GridBase.cpp |  4 +++
 2 files changed, 58 insertions(+), 10 deletions(-)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index a8c05ef..42dfbc9 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -332,6 +332,22 @@ namespace envire
 
     };
 
+    /** closes a GDAL dataset at the end of the scope */
+    class GDALDatasetCloser
+    {
+	GDALDataset* dataset;
+
+    public:
+	explicit GDALDatasetCloser( GDALDataset* dataset ) : dataset( dataset ) {}
+	~GDALDatasetCloser() { close(); }
+	void close()
+	{
+	    if( dataset )
+		GDALClose( (GDALDatasetH) dataset );
+	    dataset = NULL;
+	}
+    };
+
     /* Explicit instanciations in Grids.cpp for the purpose of serialization */
     extern template class Grid<double>;
     extern template class Grid<float>;
@@ -405,7 +421,14 @@ namespace envire
 	    else
 	    {
 		for (int i = 0; i < count; ++i)
+		{
 		    readGridData(layers[i], so.getBinaryInputStream(getFullPath(getMapFileName( getClassName() ), layers[i])));
+
+		    const std::string nodata_key = "nodata" + boost::lexical_cast<std::string>(i);
+		    double value;
+		    if( so.hasKey( nodata_key ) && so.read( nodata_key, value ) )
+			setNoData( layers[i], T(value) );
+		}
 	    }
 	}
 	else
@@ -447,8 +470,15 @@ namespace envire
 		    writeGridData(layers[i], getFullPath(getMapFileName( fso->getMapPath(), getClassName() ), layers[i]));
 	    else
 		for( size_t i=0; i<layers.size(); i++ )
+		{
 		    writeGridData(layers[i], so.getBinaryOutputStream(getFullPath(getMapFileName(), layers[i])));
 
+		    // the files contain the nodata value already
+		    std::pair<T, bool> no_data = getNoData(layers[i]);
+		    if( no_data.second )
+			so.write( "nodata" + boost::lexical_cast<std::string>(i), static_cast<double>(no_data.first) );
+		}
+
         so.write("map_count", layers.size());
     }
 
@@ -492,7 +522,8 @@ namespace envire
     template<class T>void Grid<T>::readGridData(const std::string &key, std::istream& is, boost::enable_if< boost::is_fundamental<T> >* enabler)
     {
         ArrayType &data = getGridData(key);
-        is.read(reinterpret_cast<char*>(data.data()), sizeof(T) * data.num_elements());
+        if( !is.read(reinterpret_cast<char*>(data.data()), sizeof(T) * data.num_elements()) )
+            throw std::runtime_error("not enough data for band " + key);
     }
 
     template<class T>void Grid<T>::writeGridData(const std::string &key,const std::string& path)
@@ -523,6 +554,7 @@ namespace envire
 
         if (!poDstDS)
             throw std::runtime_error("failed to create file " + path);
+	GDALDatasetCloser closer( poDstDS );
 
 	// get the scale and transform value so that they can be
 	// added as a geotransform
@@ -530,7 +562,12 @@ namespace envire
 	gridTransform.translate( Eigen::Vector2d( offsetx, offsety ) );
 	gridTransform.scale( Eigen::Vector2d( scalex, scaley ) );
 
-	if(getEnvironment())
+	// this is only possible if the map is connected to the root frame
+	const FrameNode* fn = getEnvironment() ? getFrameNode() : NULL;
+	while( fn && fn != getEnvironment()->getRootNode() )
+	    fn = fn->getParent();
+
+	if(fn)
 	{
 	    // get the frame transformation to the root frame
 	    Transform t = getEnvironment()->relativeTransform(
@@ -547,7 +584,7 @@ namespace envire
 	}
 	else
 	{
-	    LOG_DEBUG_S << className << " has no environment!!!";
+	    LOG_DEBUG_S << className << " has no transform to a root frame!!!";
 	}
 
 	//calc GeoTransform
@@ -580,10 +617,16 @@ namespace envire
           std::pair<T, bool> no_data = getNoData(*iter);
           if (no_data.second)
               poBand->SetNoDataValue(no_data.first);
-	  poBand->RasterIO(GF_Write ,0,0,cellSizeX,cellSizeY,data.data(),cellSizeX,cellSizeY,poBand->GetRasterDataType(),0,0);
+	  if( poBand->RasterIO(GF_Write ,0,0,cellSizeX,cellSizeY,data.data(),cellSizeX,cellSizeY,poBand->GetRasterDataType(),0,0) != CE_None )
+	    throw std::runtime_error("could not write band " + *iter + " to file " + path);
 	  preCallWriteBand(*iter,poBand);
 	}
-	GDALClose( (GDALDatasetH) poDstDS );
+
+	// some of the data might only be written when the file is closed
+	CPLErrorReset();
+	closer.close();
+	if( CPLGetLastErrorType() >= CE_Failure )
+	    throw std::runtime_error("could not write file " + path);
     }
 
     template<class T>void Grid<T>::readGridData(const std::vector<std::string> &keys,const std::string& path, int base_band, boost::enable_if< boost::is_fundamental<T> >* enabler)
@@ -594,6 +637,7 @@ namespace envire
       poDataset = (GDALDataset *) GDALOpen(path.c_str(), GA_ReadOnly );
       if( poDataset == NULL )
 	  throw std::runtime_error("can not open file " + path);
+      GDALDatasetCloser closer( poDataset );
 
       double file_cellSizeX =  poDataset->GetRasterXSize();
       double file_cellSizeY =  poDataset->GetRasterYSize();
@@ -656,14 +700,14 @@ namespace envire
 	//writing data into the grid object
 	boost::multi_array<T,2> &data(getGridData(*iter));
 
-        T* data_ptr = &data[0][0];
+        T* data_ptr = data.data();
         // I did not manage to make GDAL invert the data for us, so I do it
         // manually. To avoid swapping values around, I allocate an additional
         // line and move the data line-by-line
         if (xDir == -1)
         {
             data.resize( boost::extents[cellSizeY + 1][cellSizeX] );
-            data_ptr = &data[1][0];
+            data_ptr = data.data() + cellSizeX;
         }
         if (yDir == -1)
             data_ptr += cellSizeX * (cellSizeY - 1);
@@ -672,11 +716,12 @@ namespace envire
         double nodata = poBand->GetNoDataValue(&has_nodata);
         if (has_nodata)
             setNoData(*iter, T(nodata));
-	poBand->RasterIO(GF_Read,
+	if( poBand->RasterIO(GF_Read,
                 0,0,cellSizeX,cellSizeY,
                 data_ptr, cellSizeX, cellSizeY,
                 getGDALDataTypeOfArray(),
-                0, yDir * sizeof(T) * cellSizeX);
+                0, yDir * sizeof(T) * cellSizeX) != CE_None )
+	  throw std::runtime_error("could not read band " + *iter + " from file " + path);
 
         // See comment above as to why we do this manually
         if (xDir == -1)
@@ -687,7 +732,6 @@ namespace envire
             data.resize( boost::extents[cellSizeY][cellSizeX] );
         }
       }
-      GDALClose(poDataset);
     }
 
     template<class T>void Grid<T>::readGridData(const std::string &key,const std::string& path, int base_band, boost::enable_if< boost::is_fundamental<T> >* enabler)
diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 72d6a2d..5ede7c7 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -1,6 +1,7 @@
 #include "GridBase.hpp"
 #include "Grid.hpp"
 #include <envire/tools/BresenhamLine.hpp>
+#include <limits>
 
 using namespace envire;
 
@@ -53,6 +54,9 @@ void GridBase::unserialize(Serialization& so)
     so.read("scaley", scaley );
     so.read("offsetx", offsetx );
     so.read("offsety", offsety );
+
+    if( cellSizeX && cellSizeY > std::numeric_limits<int>::max() / cellSizeX )
+        throw std::runtime_error("invalid grid size");
 }
 
 bool envire::GridBase::getRectPoints(const base::Pose2D &pose, double sizeX, double sizeY, GridBase::Position &upLeft_g, GridBase::Position &upRight_g, GridBase::Position &downLeft_g, GridBase::Position &downRight_g, int multiplier) const
-- 
2.43.0


From 07bd105fed2e9ff5d1cd86ec2f1064333e299e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:57 +0000
Subject: [PATCH 16/58] fix: laser scans are not read back as they were written

---
 src/maps/LaserScan.cpp | 50 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 49b8a91..0b69d1a 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -2,6 +2,7 @@
 
 #include <string>
 #include <fstream>
+#include <limits>
 
 #include <stdexcept>
 #include <iostream>
@@ -13,7 +14,7 @@ using namespace std;
 ENVIRONMENT_ITEM_DEF( LaserScan )
 
 LaserScan::LaserScan()
-    : origin_phi(0), center_offset( Eigen::Vector3d::Zero() ), x_forward( false )
+    : delta_psi(0), origin_psi(0), origin_phi(0), center_offset( Eigen::Vector3d::Zero() ), points_per_line(0), x_forward( false )
 {
 }
 
@@ -115,6 +116,9 @@ const std::string LaserScan::getMapFileName() const
 
 bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
     std::string line;
+    // number of lines, only provided by newer files
+    long line_count = -1;
+    bool complete = false;
     while( !is.eof() ) {
         getline( is, line );
         std::istringstream iline( line );
@@ -154,11 +158,12 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
             scanline_t scanline;
             iline >> scanline.delta_phi;
 
-            while( !iline.eof() ) {
-                int dist;
-                iline >> dist;
+            long dist;
+            while( iline >> dist ) {
                 scanline.ranges.push_back( dist );
             }
+	    if( !iline.eof() )
+		throw std::runtime_error("scan line is not valid.");
 
             points_per_line = scanline.ranges.size();
 
@@ -176,16 +181,36 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
 	    if( dphi != scanline.delta_phi )
 		throw std::runtime_error("remission line does not have the same delta_phi value as prior line statement.");
 
-            while( !iline.eof() ) {
-                float rem;
-                iline >> rem;
+            double rem;
+            while( iline >> rem ) {
                 scanline.remissions.push_back( rem );
             }
+	    if( !iline.eof() )
+		throw std::runtime_error("remission line is not valid.");
 
             points_per_line = scanline.remissions.size();
         }
+
+        if( key == "line_count" ) {
+            iline >> line_count;
+        }
+
+        if( key == "x_forward" ) {
+            iline >> x_forward;
+        }
+
+        if( key == "points_per_line" ) {
+            iline >> points_per_line;
+        }
+
+        if( key == "end" ) {
+            complete = true;
+        }
     }
 
+    if( line_count >= 0 && ( !complete || static_cast<size_t>(line_count) != lines.size() ) )
+	throw std::runtime_error("scan is not complete.");
+
     return true;
 }
 
@@ -198,13 +223,20 @@ bool LaserScan::readScan( std::istream& is )
 
 bool LaserScan::writeScan( std::ostream& os )
 {
+    // this is what is needed in order to get the same values back
+    const std::streamsize precision = os.precision( std::numeric_limits<float>::max_digits10 );
+
     os << "delta_psi " << delta_psi << endl;
     os << "origin_psi " << origin_psi << endl;
     os << "origin_phi " << origin_phi << endl;
+    os << "x_forward " << x_forward << endl;
+    os << "line_count " << lines.size() << endl;
+    os.precision( std::numeric_limits<double>::max_digits10 );
     os << "center_offset " 
 	<< center_offset.x() << " " 
 	<< center_offset.y() << " " 
 	<< center_offset.z() << endl;
+    os.precision( std::numeric_limits<float>::max_digits10 );
 
     for( vector<scanline_t>::iterator it=lines.begin();it!=lines.end();it++)
     {
@@ -226,6 +258,10 @@ bool LaserScan::writeScan( std::ostream& os )
 	}
     }	
 
+    os << "points_per_line " << points_per_line << endl;
+    os << "end" << endl;
+    os.precision( precision );
+
     return true;
 }
 
-- 
2.43.0


From 8e1478c7ada6b0b9c986efa7df3a329798b39fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:57 +0000
Subject: [PATCH 17/58] fix: MLSGrid reads patches outside of the grid and
 forgets its configuration

---
 src/maps/MLSGrid.cpp | 20 ++++++++++++++++++++
 src/maps/MLSGrid.hpp |  2 ++
 2 files changed, 22 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 2d51687..a5c06ca 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -159,6 +159,8 @@ void MLSGrid::serialize(Serialization& so)
     so.write( "hasCellColor", config.useColor );
     long updateModelInt = static_cast<long>( config.updateModel );
     so.write( "updateModel", updateModelInt );
+    so.write( "gapSize", config.gapSize );
+    so.write( "thickness", config.thickness );
     writeMap( so.getBinaryOutputStream(getMapFileName() + ".mls") );
 }
 
@@ -172,6 +174,10 @@ void MLSGrid::unserialize(Serialization& so)
 	so.read( "updateModel", updateModelInt );
 	config.updateModel = static_cast<MLSConfiguration::update_model>( updateModelInt );
     }
+    if( so.hasKey( "gapSize" ) )
+	so.read( "gapSize", config.gapSize );
+    if( so.hasKey( "thickness" ) )
+	so.read( "thickness", config.thickness );
     if( so.hasKey( "hasCellColor" ) )
 	so.read( "hasCellColor", config.useColor );
     else
@@ -327,6 +333,12 @@ void MLSGrid::writeMap(std::ostream& os)
     }
 }
 
+void MLSGrid::checkCell( size_t xi, size_t yi ) const
+{
+    if( xi >= cellSizeX || yi >= cellSizeY )
+	throw std::runtime_error("surface patch is outside of the grid");
+}
+
 void MLSGrid::readMap(std::istream& is)
 {   
     char c[32];
@@ -352,6 +364,7 @@ void MLSGrid::readMap(std::istream& is)
 	SurfacePatchStore10 d;
 	while( is.read(reinterpret_cast<char*>(&d), sizeof( SurfacePatchStore10 ) ) )
 	{
+	    checkCell( d.xi, d.yi );
 	    insertTail( d.xi, d.yi, d.toSurfacePatch() );
 	}
     }
@@ -362,6 +375,7 @@ void MLSGrid::readMap(std::istream& is)
 	SurfacePatchStore11 d;
 	while( is.read(reinterpret_cast<char*>(&d), sizeof( SurfacePatchStore11 ) ) )
 	{
+	    checkCell( d.xi, d.yi );
 	    insertTail( d.xi, d.yi, d.toSurfacePatch() );
 	}
     }
@@ -372,6 +386,7 @@ void MLSGrid::readMap(std::istream& is)
 	SurfacePatchStore12 d;
 	while( is.read(reinterpret_cast<char*>(&d), sizeof( SurfacePatchStore12 ) ) )
 	{
+	    checkCell( d.xi, d.yi );
 	    insertTail( d.xi, d.yi, d.toSurfacePatch() );
 	}
     }
@@ -382,9 +397,14 @@ void MLSGrid::readMap(std::istream& is)
 	SurfacePatchStore13 d;
 	while( is.read(reinterpret_cast<char*>(&d), sizeof( SurfacePatchStore13 ) ) )
 	{
+	    checkCell( d.xi, d.yi );
 	    insertTail( d.xi, d.yi, d.toSurfacePatch() );
 	}
     }
+
+    // there is nothing left when all the patches have been read
+    if( is.bad() || is.gcount() != 0 )
+	throw std::runtime_error("incomplete surface patch");
 }
 
 MLSGrid::iterator MLSGrid::beginCell( size_t xi, size_t yi )
diff --git a/src/maps/MLSGrid.hpp b/src/maps/MLSGrid.hpp
index ab47ee2..fa7ab4e 100644
--- a/src/maps/MLSGrid.hpp
+++ b/src/maps/MLSGrid.hpp
@@ -95,6 +95,8 @@ namespace envire
 
 	void writeMap(std::ostream& os);
 	void readMap(std::istream& is);
+	/** throws if the given cell is not part of the grid */
+	void checkCell( size_t xi, size_t yi ) const;
 
         /** Clears the whole map */
 	void clear();
-- 
2.43.0


From 93e69aaeb54090789f5c8edf9ebd58c0a67eda85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:57 +0000
Subject: [PATCH 18/58] fix: saved feature clouds can't be loaded

---
 src/maps/Featurecloud.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maps/Featurecloud.cpp b/src/maps/Featurecloud.cpp
index 5a48c88..95d05e6 100644
--- a/src/maps/Featurecloud.cpp
+++ b/src/maps/Featurecloud.cpp
@@ -4,22 +4,22 @@ using namespace envire;
 ENVIRONMENT_ITEM_DEF( Featurecloud )
 
 Featurecloud::Featurecloud()
-    : descriptorSize(0)
+    : descriptorType(DESCRIPTOR()), descriptorSize(0)
 {
 }
 
 void Featurecloud::serialize(Serialization& so)
 {
-    Pointcloud::serialize( so, false );
+    Pointcloud::serialize( so, true );
 
-    // TODO write map file
+    // TODO write keypoints and descriptors
 }
 
 void Featurecloud::unserialize(Serialization& so)
 {
     Pointcloud::unserialize(so);
     
-    // TODO read map file
+    // TODO read keypoints and descriptors
 }
 
 void Featurecloud::clear() 
-- 
2.43.0


From 90117b23af963889c94eec10b8532bc36e1c10e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:57 +0000
Subject: [PATCH 19/58] fix: invalid meshes and traversability classes are
 accepted when loading

---
 src/maps/TraversabilityGrid.cpp | 3 +++
 src/maps/TriMesh.cpp            | 3 ++-
 src/tools/PlyFile.cpp           | 4 ++--
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index c346c15..5eeb31e 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -1,3 +1,4 @@
+#include <limits>
 #include "TraversabilityGrid.hpp"
 #include <boost/bind.hpp>
 #include <tools/RadialLookUpTable.hpp>
@@ -261,6 +262,8 @@ void TraversabilityGrid::unserialize(Serialization& so)
     envire::Grid< uint8_t >::unserialize(so);
     size_t traversabilityClassCount = 0;
     so.read<size_t>(std::string("drivabilityClassCount"), traversabilityClassCount);
+    if(traversabilityClassCount > std::numeric_limits<uint8_t>::max() + 1u)
+        throw std::runtime_error("TraversabilityGrid::too many traversability classes");
     for(size_t i = 0; i < traversabilityClassCount; i++)
     {
         double drivability;
diff --git a/src/maps/TriMesh.cpp b/src/maps/TriMesh.cpp
index e9028f0..71b9549 100644
--- a/src/maps/TriMesh.cpp
+++ b/src/maps/TriMesh.cpp
@@ -22,7 +22,8 @@ void TriMesh::unserialize(Serialization& so)
 {
     Pointcloud::unserialize(so, false);
     
-    readPly( getMapFileName() + ".ply", so.getBinaryInputStream(getMapFileName() + ".ply") );
+    if( !readPly( getMapFileName() + ".ply", so.getBinaryInputStream(getMapFileName() + ".ply") ) )
+	throw std::runtime_error("could not read mesh " + getMapFileName());
 }
 
 void TriMesh::calcVertexNormals()
diff --git a/src/tools/PlyFile.cpp b/src/tools/PlyFile.cpp
index 6471f1c..0d27be9 100644
--- a/src/tools/PlyFile.cpp
+++ b/src/tools/PlyFile.cpp
@@ -72,7 +72,7 @@ template <typename SizeType, typename ScalarType>
 void PlyFile::list_property_begin_callback(SizeType size)
 {
     if( size != 3 )
-	std::cerr << "no support for faces with edgecount different to 3 (is " << (int)size << ")." << std::endl;
+	throw std::runtime_error("no support for faces with edgecount different to 3 in " + filename_);
 
     triangle_idx__ = 0;
 }
@@ -81,7 +81,7 @@ template <typename SizeType, typename ScalarType>
 void PlyFile::list_property_element_callback(ScalarType scalar)
 {
     if( static_cast<size_t>(scalar) >= pco_->vertices.size() )
-	std::cerr << "vertex_index " << scalar << " is out of range!" << std::endl;
+	throw std::runtime_error("vertex_index is out of range in " + filename_);
 
     switch( triangle_idx__ )
     {
-- 
2.43.0


From dece879a90d24110ae4e80445f0c1d79d00e17cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:10 +0000
Subject: [PATCH 20/58] fix: an item removed, added and removed again before a
 pull stays in the replica

---
 src/core/EventHandler.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/EventHandler.cpp b/src/core/EventHandler.cpp
index 2d37794..15d0f99 100644
--- a/src/core/EventHandler.cpp
+++ b/src/core/EventHandler.cpp
@@ -86,9 +86,16 @@ void EventQueue::handle( const Event& message )
 	event::Result res = 
 	    event.merge( *it );
 
+	if( res == event::INVALIDATE && it->operation == event::REMOVE )
+	{
+	    // what is already going to be removed has been added again, which is
+	    // cancelled by the current event. The first removal is still needed.
+	    valid = false;
+	    ++it;
+	}
 	// either cancel or invalidate make the old event
 	// obsolete
-	if( res == event::CANCEL || res == event::INVALIDATE )
+	else if( res == event::CANCEL || res == event::INVALIDATE )
         {
 	    it = msgQueue.erase( it );
         }
-- 
2.43.0


From 07f00591b722a0260a6ffdcf8d27feaf2207e988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:55 +0000
Subject: [PATCH 21/58] fix: cut off laser scans and multi-level grids are
 accepted when reading

---
 src/maps/LaserScan.cpp | 7 +++++--
 src/maps/MLSGrid.cpp   | 6 ++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 0b69d1a..8d8e995 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -22,6 +22,7 @@ void LaserScan::serialize(Serialization& so)
 {
     CartesianMap::serialize(so);
 
+    so.write( "line_count", lines.size() );
     writeScan( so.getBinaryOutputStream(getMapFileName()) );
 }
 
@@ -39,7 +40,9 @@ void LaserScan::unserialize(Serialization& so)
 {
     CartesianMap::unserialize(so);
     
-    readScan( so.getBinaryInputStream(getMapFileName()) );
+    // scans which have been written by older versions don't have an end mark
+    if( !readScan( so.getBinaryInputStream(getMapFileName()) ) && so.hasKey( "line_count" ) )
+	throw std::runtime_error("scan is not complete.");
 }
 
 void LaserScan::addScanLine( double tilt_angle, const base::samples::LaserScan& scan )
@@ -211,7 +214,7 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
     if( line_count >= 0 && ( !complete || static_cast<size_t>(line_count) != lines.size() ) )
 	throw std::runtime_error("scan is not complete.");
 
-    return true;
+    return complete;
 }
 
 
diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index a5c06ca..afa96c5 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -161,6 +161,7 @@ void MLSGrid::serialize(Serialization& so)
     so.write( "updateModel", updateModelInt );
     so.write( "gapSize", config.gapSize );
     so.write( "thickness", config.thickness );
+    so.write( "patchCount", cellcount );
     writeMap( so.getBinaryOutputStream(getMapFileName() + ".mls") );
 }
 
@@ -213,6 +214,11 @@ void MLSGrid::unserialize(Serialization& so)
 	}
     }
     readMap( *is );
+
+    size_t patchCount = cellcount;
+    so.read( "patchCount", patchCount );
+    if( patchCount != cellcount )
+	throw std::runtime_error("MLS does not have all its patches.");
 }
 
 // memory structure of version 1.0
-- 
2.43.0


From 44d27e1f70e7a3377204a5eaa227fdba38e9e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:39 +0000
Subject: [PATCH 22/58] fix: an event without properties aborts the receiver

---
 src/core/Serialization.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index f0d926a..fb2f5d4 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -762,6 +762,9 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     // there might be remains of an item that could not be read
     cleanUp();
 
+    if( bin_item.yamlProperties.empty() )
+        throw std::runtime_error("binary event for " + bin_item.id_a + " has no properties.");
+
     // set up yaml document
     YAMLParser parser( yamlSerialization->parser );
     yaml_parser_set_input_string(&yamlSerialization->parser, reinterpret_cast<const unsigned char*>(bin_item.yamlProperties.data()), bin_item.yamlProperties.size());
-- 
2.43.0


From 8392aaac7f3b545c4d9f5c81251cc89f7d49521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:39 +0000
Subject: [PATCH 23/58] fix: point clouds with missing normals or colors are
 accepted when reading

---
 src/tools/PlyFile.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tools/PlyFile.cpp b/src/tools/PlyFile.cpp
index 0d27be9..0740a19 100644
--- a/src/tools/PlyFile.cpp
+++ b/src/tools/PlyFile.cpp
@@ -379,6 +379,14 @@ bool PlyFile::unserialize( Pointcloud *pointcloud , std::istream& data )
 
     ply_parser.parse(data);
 
+    // data that serialize would refuse to write can't be valid here
+    if( pco_->hasData( Pointcloud::VERTEX_NORMAL ) && 
+	    pco_->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_NORMAL ).size() != pco_->vertices.size() )
+	throw std::runtime_error("number of normals don't match number of vertices in " + filename_);
+    if( pco_->hasData( Pointcloud::VERTEX_COLOR ) && 
+	    pco_->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ).size() != pco_->vertices.size() )
+	throw std::runtime_error("number of colors don't match number of vertices in " + filename_);
+
     return true;
 }
 
-- 
2.43.0


From eb9e9df047a79ef306946d9b59436680e6b003fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:47 +0000
Subject: [PATCH 24/58] fix: point clouds read by two threads at once get mixed
 up

---
 src/tools/PlyFile.cpp | 24 ++++++++++--------------
 src/tools/PlyFile.hpp |  4 ++++
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/tools/PlyFile.cpp b/src/tools/PlyFile.cpp
index 0740a19..27382cf 100644
--- a/src/tools/PlyFile.cpp
+++ b/src/tools/PlyFile.cpp
@@ -13,15 +13,14 @@ void PlyFile::scalar_property_callback(ScalarType scalar)
 template <typename ScalarType>
 void PlyFile::vector_property_callback(ScalarType scalar, std::vector<Eigen::Vector3d> *list, size_t idx, bool scale)
 {
-    static Eigen::Vector3d vector;
     if( scale )
-	vector[idx] = scalar/255.0;
+	vector_[idx] = scalar/255.0;
     else
-	vector[idx] = scalar;
+	vector_[idx] = scalar;
 
     if( idx == 2 )
     {
-	list->push_back( vector );
+	list->push_back( vector_ );
     }
 }
 
@@ -65,16 +64,13 @@ std::tr1::function<void (ScalarType)> PlyFile::scalar_property_definition_callba
     return std::tr1::bind(&PlyFile::scalar_property_callback<ScalarType>, this, _1);
 }
 
-int triangle_idx__;
-TriMesh::triangle_t triangle__;
-
 template <typename SizeType, typename ScalarType>
 void PlyFile::list_property_begin_callback(SizeType size)
 {
     if( size != 3 )
 	throw std::runtime_error("no support for faces with edgecount different to 3 in " + filename_);
 
-    triangle_idx__ = 0;
+    triangle_idx_ = 0;
 }
 
 template <typename SizeType, typename ScalarType>
@@ -83,21 +79,21 @@ void PlyFile::list_property_element_callback(ScalarType scalar)
     if( static_cast<size_t>(scalar) >= pco_->vertices.size() )
 	throw std::runtime_error("vertex_index is out of range in " + filename_);
 
-    switch( triangle_idx__ )
+    switch( triangle_idx_ )
     {
-	case(0): triangle__.get<0>() = scalar; break;
-	case(1): triangle__.get<1>() = scalar; break;
-	case(2): triangle__.get<2>() = scalar; break;
+	case(0): triangle_.get<0>() = scalar; break;
+	case(1): triangle_.get<1>() = scalar; break;
+	case(2): triangle_.get<2>() = scalar; break;
 	default: break;
     }
 
-    triangle_idx__++;
+    triangle_idx_++;
 }
 
 template <typename SizeType, typename ScalarType>
 void PlyFile::list_property_end_callback()
 {
-    tmo_->faces.push_back( triangle__ );
+    tmo_->faces.push_back( triangle_ );
 }
 
 template <typename DummyType>
diff --git a/src/tools/PlyFile.hpp b/src/tools/PlyFile.hpp
index a130a6b..9ce6fe7 100644
--- a/src/tools/PlyFile.hpp
+++ b/src/tools/PlyFile.hpp
@@ -26,6 +26,10 @@ namespace envire
 	std::string filename_;
 	Pointcloud* pco_;
 	TriMesh* tmo_;
+	// element which is currently being read
+	Eigen::Vector3d vector_;
+	int triangle_idx_;
+	TriMesh::triangle_t triangle_;
 
     private:
 	void info_callback(const std::string& filename, std::size_t line_number, const std::string& message);
-- 
2.43.0


From c49d9effa949787f999eb27964286e41b59b8212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:56 +0000
Subject: [PATCH 25/58] fix: reading a scan or text point cloud that can't be
 read never ends

---
 src/maps/LaserScan.cpp  | 6 ++++--
 src/maps/Pointcloud.cpp | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 8d8e995..f5f7693 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -122,8 +122,7 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
     // number of lines, only provided by newer files
     long line_count = -1;
     bool complete = false;
-    while( !is.eof() ) {
-        getline( is, line );
+    while( getline( is, line ) ) {
         std::istringstream iline( line );
 
         std::string key;
@@ -211,6 +210,9 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
         }
     }
 
+    if( is.bad() )
+	throw std::runtime_error("scan could not be read.");
+
     if( line_count >= 0 && ( !complete || static_cast<size_t>(line_count) != lines.size() ) )
 	throw std::runtime_error("scan is not complete.");
 
diff --git a/src/maps/Pointcloud.cpp b/src/maps/Pointcloud.cpp
index 09d6083..1865a18 100644
--- a/src/maps/Pointcloud.cpp
+++ b/src/maps/Pointcloud.cpp
@@ -86,7 +86,7 @@ bool Pointcloud::readText(std::istream& is, int sample, TextFormat format)
     std::vector<Eigen::Vector3d> *color = 0;
     if(format == XYZR )
         color = &getVertexData<Eigen::Vector3d>( VERTEX_COLOR );
-    while( !is.eof() )
+    while( is.good() )
     {
 	if( sample == 1 || (rand() % sample == 0) )
 	{
-- 
2.43.0


From 682b973bf8538b7391c2259d293af7c020337557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:59 +0000
Subject: [PATCH 26/58] fix: items whose files have the same name overwrite
 each other when saving

---
 src/core/Serialization.cpp |  8 ++++++++
 src/core/Serialization.hpp |  9 +++++++++
 src/maps/Grid.hpp          | 12 ++++++++++--
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index fb2f5d4..b685aa6 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -408,6 +408,7 @@ bool FileSerialization::closeStreams()
         delete *it;
     }
     ofstreams.clear();
+    outputFiles.clear();
 
     return result;
 }
@@ -437,10 +438,17 @@ std::istream& FileSerialization::getBinaryInputStream(const std::string &filenam
     return *is;
 }
 
+void FileSerialization::addOutputFile(const std::string &filename)
+{
+    if( !outputFiles.insert( filename ).second )
+        throw std::runtime_error("more than one item is stored in the file " + filename);
+}
+
 std::ostream& FileSerialization::getBinaryOutputStream(const std::string &filename)
 {
     boost::filesystem::path fileDir(sceneDir);
     fileDir = fileDir / filename;
+    addOutputFile( fileDir.string() );
     ofstreams.reserve( ofstreams.size() + 1 );
     std::ofstream *os = new std::ofstream(fileDir.string().c_str());
     if( !os->is_open() || os->fail() )
diff --git a/src/core/Serialization.hpp b/src/core/Serialization.hpp
index 0e490fd..0f2713b 100644
--- a/src/core/Serialization.hpp
+++ b/src/core/Serialization.hpp
@@ -3,6 +3,7 @@
 
 
 #include <vector>
+#include <set>
 #include <string>
 #include <sstream>
 #include <boost/lexical_cast.hpp>
@@ -158,6 +159,7 @@ namespace envire
         std::string sceneDir;
         std::vector<std::ifstream*> ifstreams;
         std::vector<std::ofstream*> ofstreams;
+        std::set<std::string> outputFiles;
         
     public:
         /* name of the yaml file */
@@ -194,6 +196,13 @@ namespace envire
          */
         virtual std::ostream& getBinaryOutputStream(const std::string &filename);
         
+        /**
+         * To be called for each file that is written to the current sceneDir. Throws if 
+         * the file has already been written, since the names of different items may 
+         * lead to the same filename.
+         */
+        void addOutputFile(const std::string &filename);
+        
         /**
          * Sets the path to the current serialization dir.
          */
diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index 42dfbc9..3691191 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -463,11 +463,19 @@ namespace envire
 
 	// differentiate between single file, multi-file and memory serialization
 	if( fso && singleFile() )
-	    writeGridData( layers, getFullPath(getMapFileName( fso->getMapPath(), getClassName() ), "") );
+	{
+	    const std::string file = getFullPath(getMapFileName( fso->getMapPath(), getClassName() ), "");
+	    fso->addOutputFile( file );
+	    writeGridData( layers, file );
+	}
 	else
 	    if( fso )
 		for( size_t i=0; i<layers.size(); i++ )
-		    writeGridData(layers[i], getFullPath(getMapFileName( fso->getMapPath(), getClassName() ), layers[i]));
+		{
+		    const std::string file = getFullPath(getMapFileName( fso->getMapPath(), getClassName() ), layers[i]);
+		    fso->addOutputFile( file );
+		    writeGridData( layers[i], file );
+		}
 	    else
 		for( size_t i=0; i<layers.size(); i++ )
 		{
-- 
2.43.0


From bc191413e3778edd97849b55771f9d506082b0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:24 +0000
Subject: [PATCH 27/58] fix: metadata and copied maps leak when memory runs out

---
 src/core/Holder.hpp |  7 +++++--
 src/core/Layer.cpp  | 34 ++++++++++++++++++++++++++--------
 src/core/Layer.hpp  |  9 ++++++++-
 3 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/core/Holder.hpp b/src/core/Holder.hpp
index 9f77c5e..a9a4b15 100644
--- a/src/core/Holder.hpp
+++ b/src/core/Holder.hpp
@@ -2,6 +2,7 @@
 #define ENVIRE_HOLDER__
 
 #include <boost/noncopyable.hpp>
+#include <memory>
 
 namespace envire
 {
@@ -52,8 +53,10 @@ namespace envire
 
 	Holder<T>* clone() const
 	{
-	    T* clone = new T(*ptr);
-	    return new Holder<T>(clone);
+	    std::auto_ptr<T> clone( new T(*ptr) );
+	    Holder<T>* res = new Holder<T>(clone.get());
+	    clone.release();
+	    return res;
 	}
     };
 
diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bcf6f0..d7a82a7 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -4,6 +4,7 @@
 
 #include <stdexcept>
 #include <fstream>
+#include <memory>
 #include <string>
 
 #include "boost/filesystem/path.hpp"
@@ -24,8 +25,26 @@ Layer::Layer(const Layer& other) :
     dirty( other.dirty )
 {
     // copy the data map, and clone the holders
+    try
+    {
+	copyData( other );
+    }
+    catch( ... )
+    {
+	// the destructor is not called in this case
+	removeData();
+	throw;
+    }
+}
+
+void Layer::copyData(const Layer& other)
+{
     for( DataMap::const_iterator it = other.data_map.begin(); it != other.data_map.end(); it++ )
-	data_map.insert( std::make_pair( it->first, it->second->clone() ) );
+    {
+	std::auto_ptr<HolderBase> holder( it->second->clone() );
+	data_map.insert( std::make_pair( it->first, holder.get() ) );
+	holder.release();
+    }
 }
 
 Layer& Layer::operator=(const Layer& other)
@@ -36,8 +55,7 @@ Layer& Layer::operator=(const Layer& other)
 	immutable = other.immutable;
 	dirty = other.dirty;
 	removeData();
-	for( DataMap::const_iterator it = other.data_map.begin(); it != other.data_map.end(); it++ )
-	    data_map.insert( std::make_pair( it->first, it->second->clone() ) );
+	copyData( other );
     }
     return *this;
 }
@@ -193,8 +211,8 @@ const FrameNode* CartesianMap::getFrameNode() const
 
 void CartesianMap::cloneTo(Environment& env) const
 {
-    CartesianMap* this_copy = clone();
-    env.attachItem(this_copy);
+    CartesianMap::Ptr this_copy( clone() );
+    env.attachItem(this_copy.get());
 
     // Get the frame stack for +this+
     std::vector<FrameNode const*> frame_stack;
@@ -213,10 +231,10 @@ void CartesianMap::cloneTo(Environment& env) const
         FrameNode* frame = env.getRootNode();
         while (!frame_stack.empty())
         {
-            FrameNode* new_frame = frame_stack.back()->clone();
+            FrameNode::Ptr new_frame( frame_stack.back()->clone() );
             frame_stack.pop_back();
-            frame->addChild(new_frame);
-            frame = new_frame;
+            frame->addChild(new_frame.get());
+            frame = new_frame.get();
         }
         this_copy->setFrameNode(frame);
     }
diff --git a/src/core/Layer.hpp b/src/core/Layer.hpp
index 335ec94..4b8ceb3 100644
--- a/src/core/Layer.hpp
+++ b/src/core/Layer.hpp
@@ -141,7 +141,9 @@ namespace envire
 	{
 	    if( !hasData( type ) )
 	    {
-		data_map[type] = new Holder<T>;
+		std::auto_ptr<HolderBase> holder( new Holder<T> );
+		data_map.insert( std::make_pair( type, holder.get() ) );
+		holder.release();
 	    }
 
 	    /*
@@ -193,6 +195,11 @@ namespace envire
 	/** @brief remove all metadata associated with this object
 	 */
 	void removeData();
+
+    private:
+	/** @brief add copies of the metadata of the other object
+	 */
+	void copyData(const Layer& other);
     };
 }
 
-- 
2.43.0


From 85e4ee60178b3d7d3114f908af328c51d6df7b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:24 +0000
Subject: [PATCH 28/58] fix: an environment that can't be created leaves its
 root node behind

---
 src/core/Environment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index baae360..064aad0 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -139,7 +139,8 @@ const std::string Environment::ITEM_NOT_ATTACHED = "";
 Environment::Environment() : last_id(0), synchronizationEventQueue(NULL),envPrefix("/")
 {
     // each environment has a root node
-    rootNode = new FrameNode();
+    FrameNode::Ptr root( new FrameNode() );
+    rootNode = root.get();
     rootNode->unique_id = "/0";
     last_id++;
     // also put it in the same managed process
-- 
2.43.0


From 8c73a3efed63686a96af020e158ed5f63b9d3951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:24 +0000
Subject: [PATCH 29/58] fix: a failed pull of all events stops the delivery of
 later changes

---
 src/core/Environment.cpp | 18 ++++++++++++------
 src/core/Environment.hpp |  3 +++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 064aad0..8fb0fa8 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -5,6 +5,7 @@
 #include "Operator.hpp"
 
 #include <algorithm>
+#include <memory>
 #include <utility>
 #include <stdexcept>
 #include <Eigen/LU>
@@ -176,6 +177,12 @@ void Environment::handle( const Event& event )
 }
 
 void Environment::addEventHandler(EventHandler *handler) 
+{
+    publishContent(handler);
+    eventHandlers.addEventHandler(handler);
+}
+
+void Environment::publishContent(EventHandler *handler)
 {
     //new listener was added, iterate over all items and 
     //attach them at the listener
@@ -207,8 +214,6 @@ void Environment::addEventHandler(EventHandler *handler)
     {
 	handler->receive( Event( event::FRAMENODE, event::ADD, it->first, it->second ) );
     }
-    
-    eventHandlers.addEventHandler(handler);
 }
 
 void Environment::detachChilds(FrameNode *parent, EventHandler *evl)
@@ -887,13 +892,14 @@ void Environment::pullEvents(std::vector<BinaryEvent> &events,bool all)
 {
     if(synchronizationEventQueue && all)
     {
-        eventHandlers.removeEventHandler(synchronizationEventQueue);
-        addEventHandler(synchronizationEventQueue);
+        // the queue stays registered, even if not everything can be published
+        publishContent(synchronizationEventQueue);
     }
     if(synchronizationEventQueue == NULL)
     {
-        synchronizationEventQueue = new SynchronizationEventQueue();
-        addEventHandler(synchronizationEventQueue);
+        std::auto_ptr<SynchronizationEventQueue> queue(new SynchronizationEventQueue());
+        addEventHandler(queue.get());
+        synchronizationEventQueue = queue.release();
     }
     synchronizationEventQueue->popEvents(events);
 }
diff --git a/src/core/Environment.hpp b/src/core/Environment.hpp
index 0def4fb..870e5d4 100644
--- a/src/core/Environment.hpp
+++ b/src/core/Environment.hpp
@@ -58,6 +58,9 @@ namespace envire
 
 	EventSource eventHandlers;
 	void publishChilds(EventHandler* handler, FrameNode *parent);
+
+	/** tell the handler about the current content of the environment */
+	void publishContent(EventHandler* handler);
 	void detachChilds(FrameNode *parent, EventHandler* handler);
 
     public:
-- 
2.43.0


From 0e507969f0f150967027bfad0bdbc443038b0ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:49 +0000
Subject: [PATCH 30/58] fix: destroying an environment without memory left
 terminates the process

---
 src/core/Environment.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 8fb0fa8..6fed19f 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -152,9 +152,24 @@ Environment::~Environment()
 {
     // perform a delete on all the owned objects
     itemListType::iterator it;
-    while( (it = items.begin()) != items.end() )
+    try
     {
-	it->second->detach();
+	while( (it = items.begin()) != items.end() )
+	{
+	    it->second->detach();
+	}
+    }
+    catch( ... )
+    {
+	// e.g. out of memory. Release the items without telling the handlers.
+	frameNodeTree.clear();
+	layerTree.clear();
+	operatorGraphInput.clear();
+	operatorGraphOutput.clear();
+	cartesianMapGraph.clear();
+	for( it = items.begin(); it != items.end(); it++ )
+	    it->second->env = NULL;
+	items.clear();
     }
     delete synchronizationEventQueue;
 }
-- 
2.43.0


From b5c46d9200ab9e33fa14875e206734b13707b0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:53 +0000
Subject: [PATCH 31/58] fix: events processed before a failed pull can't be
 cancelled any more

---
 src/core/Serialization.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index b685aa6..0f87a62 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -7,6 +7,7 @@
 #include <iterator>
 #include <algorithm>
 #include <memory>
+#include <boost/thread/locks.hpp>
 
 #include "Serialization.hpp"
 #include "Operator.hpp"
@@ -1002,7 +1003,22 @@ SynchronizationEventQueue::SynchronizationEventQueue()
 
 void SynchronizationEventQueue::popEvents(std::vector<BinaryEvent>& msgs)
 {
-    EventQueue::flush();
+    boost::lock_guard<boost::mutex> lock( queueMutex );
+    std::list<Event>::iterator it = msgQueue.begin();
+    try
+    {
+        for( ; it != msgQueue.end(); it++ )
+            process( *it );
+    }
+    catch( ... )
+    {
+        // The others stay in the queue, where they can still be cancelled. They
+        // are processed again with the next call.
+        msg_buffer.clear();
+        msgQueue.erase( it );
+        throw;
+    }
+    msgQueue.clear();
     msgs.swap(msg_buffer);
     msg_buffer.clear();
 }
-- 
2.43.0


From 26ee8eb708c82192dc4d9fed0b149001bcdcb051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:39 +0000
Subject: [PATCH 32/58] fix: points of a ply file without all coordinates were
 uninitialised

---
 src/tools/PlyFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/PlyFile.cpp b/src/tools/PlyFile.cpp
index 27382cf..d608828 100644
--- a/src/tools/PlyFile.cpp
+++ b/src/tools/PlyFile.cpp
@@ -163,6 +163,7 @@ bool PlyFile::end_header_callback()
 
 PlyFile::PlyFile( const std::string& filename )
     : filename_( filename ), pco_(NULL), tmo_(NULL)
+    , vector_( Eigen::Vector3d::Zero() ), triangle_idx_( 0 ), triangle_( 0, 0, 0 )
 {
 }
 
-- 
2.43.0


From dfa49f238ff333993ae442a3cacc0cebbbef0ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:47 +0000
Subject: [PATCH 33/58] fix: copies of a multi level surface map lost the
 metadata of the layer

---
 src/maps/MLSMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index ec6bccf..78ada41 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -27,7 +27,7 @@ MLSMap::MLSMap()
 }
 
 MLSMap::MLSMap(const MLSMap& other)
-    : grids( other.grids ), active( other.active )
+    : Map<2>( other ), grids( other.grids ), active( other.active )
 {
 }
 
-- 
2.43.0


From 23014232cf09796baa8e56ac79cdde92360cb1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:47 +0000
Subject: [PATCH 34/58] fix: multi level surface map looked up patches in
 removed grids and with old transforms

---
 src/maps/MLSMap.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index 78ada41..e162d5f 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -87,9 +87,13 @@ bool MLSMap::getPatch( const Point& p, SurfacePatch& patch, double sigma_thresho
 {
     // see if we can use the cache. This will reduce the amount of transform
     // calculations
-    if( cache.grid )
+    // the grid could have been removed or moved in the meantime
+    if( cache.grid && std::find( grids.begin(), grids.end(), cache.grid ) != grids.end() )
+    {
+	cache.trans = env->relativeTransform( getFrameNode(), cache.grid->getFrameNode() );
 	if( ::getPatch( cache.grid, cache.trans, p, patch, sigma_threshold ) )
 	    return true;
+    }
 
     // go backwards in the list, and try to find the point in any of the grids
     for( std::vector<MLSGrid::Ptr>::reverse_iterator it = grids.rbegin(); it != grids.rend(); it++ )
-- 
2.43.0


From 4394240bf04bd6dfa3219315bac8b6bff2a5d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:47 +0000
Subject: [PATCH 35/58] fix: updates of a multi level surface map removed its
 child layers in replicas

---
 src/maps/MLSMap.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index e162d5f..b0045be 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -37,18 +37,21 @@ MLSMap& MLSMap::operator=(const MLSMap& other)
     {
 	Map<2>::operator=( other );
 
-	grids = other.grids;
+	// other child layers than the grids are not part of the assigned
+	// value. This is e.g. the case when the update is received from
+	// another environment, for which the grids are not known.
+	std::vector<MLSGrid::Ptr> old_grids( other.grids );
+	grids.swap( old_grids );
 	active = other.active;
 
 	if( isAttached() )
 	{
-	    std::list<Layer*> children = env->getChildren( this );
-	    for( std::list<Layer*>::iterator it = children.begin(); it != children.end(); it++ )
+	    typedef std::vector<MLSGrid::Ptr>::iterator iterator;
+	    for( iterator it = old_grids.begin(); it != old_grids.end(); it++ )
 	    {
-		env->removeChild( this, *it );
+		env->removeChild( this, (*it).get() );
 	    }
 
-	    typedef std::vector<MLSGrid::Ptr>::iterator iterator;
 	    for( iterator it = grids.begin(); it != grids.end(); it++ )
 	    {
 		env->addChild( this, (*it).get() );
-- 
2.43.0


From d8ef6c613972bde31f98c8b19ef506a6c826f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:47 +0000
Subject: [PATCH 36/58] fix: deep clones of a multi level surface map were not
 placed where the original is

---
 src/maps/MLSMap.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index b0045be..b8708f4 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -197,7 +197,10 @@ MLSMap* MLSMap::cloneDeep()
 
 	env->setFrameNode( active_clone, active->getFrameNode() );
 	
-	env->attachItem( res );
+	if( getFrameNode() )
+	    env->setFrameNode( res, getFrameNode() );
+	else
+	    env->attachItem( res );
 
 	typedef std::vector<MLSGrid::Ptr>::iterator iterator;
 	for( iterator it = res->grids.begin(); it != res->grids.end(); it++ )
-- 
2.43.0


From 52b39b0fb904bb5819c1bc503c718f229aba4d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:47 +0000
Subject: [PATCH 37/58] fix: new grids selected in a multi level surface map
 were always aligned

---
 src/maps/MLSMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index b8708f4..80ea274 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -145,7 +145,7 @@ void MLSMap::selectActiveGrid( const FrameNode* fn, double threshold, bool align
     else
     {
 	Transform t = fn->relativeTransform( getActiveGrid()->getFrameNode() );
-	createGrid( t, true, true );
+	createGrid( t, true, aligned );
     }
 }
 
-- 
2.43.0


From 48982da81315fdab3614d34558ee54f2fa289f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:00 +0000
Subject: [PATCH 38/58] fix: keypoints and descriptors of feature clouds were
 lost when saved or sent

---
 src/maps/Featurecloud.cpp | 62 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 59 insertions(+), 3 deletions(-)

diff --git a/src/maps/Featurecloud.cpp b/src/maps/Featurecloud.cpp
index 95d05e6..9d9ef9b 100644
--- a/src/maps/Featurecloud.cpp
+++ b/src/maps/Featurecloud.cpp
@@ -8,18 +8,74 @@ Featurecloud::Featurecloud()
 {
 }
 
+template <class T> static void writeRaw(std::ostream& os, const T& value)
+{
+    os.write( reinterpret_cast<const char*>(&value), sizeof(T) );
+}
+
+template <class T> static void readRaw(std::istream& is, T& value)
+{
+    if( !is.read( reinterpret_cast<char*>(&value), sizeof(T) ) )
+	throw std::runtime_error("features are incomplete");
+}
+
 void Featurecloud::serialize(Serialization& so)
 {
     Pointcloud::serialize( so, true );
 
-    // TODO write keypoints and descriptors
+    so.write( "descriptor_type", static_cast<int>(descriptorType) );
+    so.write( "descriptor_size", descriptorSize );
+    so.write( "keypoint_count", keypoints.size() );
+    so.write( "descriptor_count", descriptors.size() );
+
+    std::ostream& os = so.getBinaryOutputStream( getMapFileName() + ".features" );
+    for( size_t i=0; i<keypoints.size(); i++ )
+    {
+	writeRaw( os, keypoints[i].point.x() );
+	writeRaw( os, keypoints[i].point.y() );
+	writeRaw( os, keypoints[i].size );
+	writeRaw( os, keypoints[i].angle );
+	writeRaw( os, keypoints[i].response );
+    }
+    for( size_t i=0; i<descriptors.size(); i++ )
+	writeRaw( os, descriptors[i] );
 }
 
 void Featurecloud::unserialize(Serialization& so)
 {
     Pointcloud::unserialize(so);
-    
-    // TODO read keypoints and descriptors
+
+    // For backward compatibility
+    if( !so.hasKey( "keypoint_count" ) )
+	return;
+
+    int type = 0;
+    size_t keypoint_count = 0, descriptor_count = 0;
+    so.read( "descriptor_type", type );
+    so.read( "descriptor_size", descriptorSize );
+    so.read( "keypoint_count", keypoint_count );
+    so.read( "descriptor_count", descriptor_count );
+    descriptorType = static_cast<DESCRIPTOR>(type);
+
+    keypoints.clear();
+    descriptors.clear();
+    std::istream& is = so.getBinaryInputStream( getMapFileName() + ".features" );
+    for( size_t i=0; i<keypoint_count; i++ )
+    {
+	KeyPoint point;
+	readRaw( is, point.point.x() );
+	readRaw( is, point.point.y() );
+	readRaw( is, point.size );
+	readRaw( is, point.angle );
+	readRaw( is, point.response );
+	keypoints.push_back( point );
+    }
+    for( size_t i=0; i<descriptor_count; i++ )
+    {
+	Scalar value;
+	readRaw( is, value );
+	descriptors.push_back( value );
+    }
 }
 
 void Featurecloud::clear() 
-- 
2.43.0


From b0c40b3593aaa53daa8fc1b02589017cce7302f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 39/58] fix: CutPointcloud checks the attributes before it
 copies them

---
 src/operators/CutPointcloud.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/CutPointcloud.cpp b/src/operators/CutPointcloud.cpp
index bb7d9b6..2de614c 100644
--- a/src/operators/CutPointcloud.cpp
+++ b/src/operators/CutPointcloud.cpp
@@ -122,7 +122,7 @@ bool CutPointcloud::updateAll(){
                 target_vertex_normal_data->push_back( normal_rot * source_vertex_normal_data->at(i) );
             if(source_vertex_color_data && source_vertex_color_data->size() > i)
                 target_vertex_color_data->push_back( source_vertex_color_data->at(i) );
-            if(source_vertex_attributes_data && source_vertex_variance_data->size() > i)
+            if(source_vertex_attributes_data && source_vertex_attributes_data->size() > i)
                 target_vertex_attributes_data->push_back( source_vertex_attributes_data->at(i) );
             if(source_vertex_variance_data && source_vertex_variance_data->size() > i)
                 target_vertex_variance_data->push_back( source_vertex_variance_data->at(i) );
-- 
2.43.0


From 77e355825a185915d14c4b7e5e1e06c487ae69e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 40/58] fix: all constructors of MLSSlope initialise all
 settings

---
 src/operators/MLSSlope.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSSlope.hpp b/src/operators/MLSSlope.hpp
index 3ff5d78..e741cd4 100644
--- a/src/operators/MLSSlope.hpp
+++ b/src/operators/MLSSlope.hpp
@@ -33,12 +33,15 @@ namespace envire
             , window_size(1) {}
         MLSSlope(double corrected_step_threshold, bool use_stddev) 
             : corrected_step_threshold(corrected_step_threshold)
-            , use_stddev(use_stddev) {}
+            , use_stddev(use_stddev)
+            , required_measurements_per_patch(0)
+            , window_size(1) {}
         MLSSlope(double corrected_step_threshold, bool use_stddev, 
                  uint32_t required_measurements_per_patch) 
             : corrected_step_threshold(corrected_step_threshold)
             , use_stddev(use_stddev)
-            , required_measurements_per_patch(required_measurements_per_patch) {}
+            , required_measurements_per_patch(required_measurements_per_patch)
+            , window_size(1) {}
 	void serialize( Serialization &so ) { Operator::serialize( so ) ;}
 	void unserialize( Serialization &so ) { Operator::unserialize( so ) ;}
 
-- 
2.43.0


From 687700919a42aa73fcc4c73ab7f0189e3be7ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 41/58] fix: MLSSlope and MLSToGrid refuse grids that differ in
 width or height only

---
 src/operators/MLSSlope.cpp  | 4 ++--
 src/operators/MLSToGrid.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/operators/MLSSlope.cpp b/src/operators/MLSSlope.cpp
index 0028e7e..e502b09 100644
--- a/src/operators/MLSSlope.cpp
+++ b/src/operators/MLSSlope.cpp
@@ -73,9 +73,9 @@ bool MLSSlope::updateAll()
     Grid<float>& travGrid = *env->getOutput< Grid<float>* >(this);
     MLSGrid const& mls = *env->getInput< MLSGrid* >(this);
 
-    if( mls.getWidth() != travGrid.getWidth() && mls.getHeight() != travGrid.getHeight() )
+    if( mls.getWidth() != travGrid.getWidth() || mls.getHeight() != travGrid.getHeight() )
         throw std::runtime_error("mismatching width and/or height between MLSGradient input and output");
-    if( mls.getScaleX() != travGrid.getScaleX() && mls.getScaleY() != travGrid.getScaleY() )
+    if( mls.getScaleX() != travGrid.getScaleX() || mls.getScaleY() != travGrid.getScaleY() )
         throw std::runtime_error("mismatching cell scale between MLSGradient input and output");
 
     // init traversibility grid
diff --git a/src/operators/MLSToGrid.cpp b/src/operators/MLSToGrid.cpp
index f1bc13e..62569d4 100644
--- a/src/operators/MLSToGrid.cpp
+++ b/src/operators/MLSToGrid.cpp
@@ -36,9 +36,9 @@ bool MLSToGrid::updateAll()
     Grid<double>& travGrid = *env->getOutput< Grid<double>* >(this);
     MLSGrid const& mls = *env->getInput< MLSGrid* >(this);
 
-    if( mls.getWidth() != travGrid.getWidth() && mls.getHeight() != travGrid.getHeight() )
+    if( mls.getWidth() != travGrid.getWidth() || mls.getHeight() != travGrid.getHeight() )
         throw std::runtime_error("mismatching width and/or height between MLSGradient input and output");
-    if( mls.getScaleX() != travGrid.getScaleX() && mls.getScaleY() != travGrid.getScaleY() )
+    if( mls.getScaleX() != travGrid.getScaleX() || mls.getScaleY() != travGrid.getScaleY() )
         throw std::runtime_error("mismatching cell scale between MLSGradient input and output");
 
     // init traversibility grid
-- 
2.43.0


From 8f0362457196a7b0cf5dbaad6b8712ef6a2d3e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 42/58] fix: FoldOperator does not read beyond the last row and
 column

---
 src/operators/Fold.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/Fold.hpp b/src/operators/Fold.hpp
index aae1db8..d436681 100644
--- a/src/operators/Fold.hpp
+++ b/src/operators/Fold.hpp
@@ -34,7 +34,7 @@ public:
                 size_t yr = ys + y;
                 
                 //no negative check needed, will overflow if negative
-                if(xr > maxX || yr > maxY)
+                if(xr >= maxX || yr >= maxY)
                     continue;
                 
                 cnt++;
-- 
2.43.0


From 82acc27bb771f3791c0febd1ccd14f08ea22cb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 43/58] fix: ScanMeshing saves and loads the remission scale
 factor

---
 src/operators/ScanMeshing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 1b9a79f..491648c 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -28,7 +28,7 @@ void ScanMeshing::serialize(Serialization& so)
 {
     Operator::serialize(so);
     so.write("maxEdgeLength", maxEdgeLength ); 
-    so.write("remissionScaleFactor", maxEdgeLength ); 
+    so.write("remissionScaleFactor", remissionScaleFactor ); 
     so.write("minRange", minRange ); 
 }
 
@@ -36,7 +36,7 @@ void ScanMeshing::unserialize(Serialization& so)
 {
     Operator::unserialize(so);
     so.read("maxEdgeLength", maxEdgeLength ); 
-    so.read("remissionScaleFactor", maxEdgeLength ); 
+    so.read("remissionScaleFactor", remissionScaleFactor ); 
     so.read("minRange", minRange ); 
 }
 
-- 
2.43.0


From ec25f808ec5c03bd4bc441dc55dd629168c8b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 44/58] fix: MLSProjection does not add vertex data to its
 inputs

---
 src/operators/MLSProjection.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index 461598f..b94a386 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -176,7 +176,9 @@ void MLSProjection::projectPointcloud( envire::MultiLevelSurfaceGrid* grid, envi
     // note: the grid might actually be a local copy and not attached to an
     // environment
     std::vector<Eigen::Vector3d>& points(pc->vertices);
-    std::vector<double>& uncertainty(pc->getVertexData<double>(Pointcloud::VERTEX_VARIANCE));
+    std::vector<double> *uncertainty = NULL;
+    if( pc->hasData( Pointcloud::VERTEX_VARIANCE ) )
+	uncertainty = &pc->getVertexData<double>(Pointcloud::VERTEX_VARIANCE);
     std::vector<Eigen::Vector3d> *color = NULL;
     if( pc->hasData( Pointcloud::VERTEX_COLOR ) )
     {
@@ -184,11 +186,11 @@ void MLSProjection::projectPointcloud( envire::MultiLevelSurfaceGrid* grid, envi
 	assert( color->size() == points.size() );
 	grid->setHasCellColor( true );
     }
-    bool hasUncertainty = points.size() == uncertainty.size();
+    bool hasUncertainty = uncertainty && points.size() == uncertainty->size();
 
     for(size_t i=0;i<points.size();i++)
     {
-	const double p_var = hasUncertainty? uncertainty[i] : defaultUncertainty;
+	const double p_var = hasUncertainty? (*uncertainty)[i] : defaultUncertainty;
 	Point p = C_m2g.getTransform() * points[i];
 
 	const Eigen::Vector3d &mean( p );
-- 
2.43.0


From 5871114c386034a0eda147d5f9591ea6d1ba29fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 45/58] fix: SimpleTraversability saves and loads the obstacle
 clearance

---
 src/operators/SimpleTraversability.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 115cf41..bcc5f60 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -52,6 +52,7 @@ void SimpleTraversability::serialize(envire::Serialization& so)
     so.write("class_count", conf.class_count);
     so.write("ground_clearance", conf.ground_clearance);
     so.write("min_width", conf.min_width);
+    so.write("obstacle_clearance", conf.obstacle_clearance);
     so.write("output_band", output_band);
 }
 
@@ -73,6 +74,8 @@ void SimpleTraversability::unserialize(envire::Serialization& so)
     so.read<int>("class_count", conf.class_count);
     so.read<double>("ground_clearance", conf.ground_clearance);
     so.read<double>("min_width", conf.min_width);
+    if (so.hasKey("obstacle_clearance"))
+        so.read<double>("obstacle_clearance", conf.obstacle_clearance);
     so.read<std::string>("output_band", output_band);
 }
 
-- 
2.43.0


From 436e5a320931e33c7adb029a96ba8bd25a1f8b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 46/58] fix: SimpleTraversability refuses inputs of another
 size than its output

---
 src/operators/SimpleTraversability.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index bcc5f60..7780f8a 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -144,6 +144,8 @@ bool SimpleTraversability::updateAll()
         {
             input_layers[i] = getEnvironment()->getItem< Grid<float> >(input_layers_id[i]).get();
             has_data = true;
+            if (input_layers[i]->getCellSizeX() != output_layer->getCellSizeX() || input_layers[i]->getCellSizeY() != output_layer->getCellSizeY())
+                throw std::runtime_error("SimpleTraversability: input and output have different sizes");
             inputs[i] = &(input_layers[i]->getGridData(input_bands[i]));
 
             std::pair<float, bool> no_data = input_layers[i]->getNoData(input_bands[i]);
-- 
2.43.0


From b046cea8abf9d45075cb76aa39020150c0a8c0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 47/58] fix: SimpleTraversability marks cells without any value
 as unknown

---
 src/operators/SimpleTraversability.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 7780f8a..1e1df35 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -164,6 +164,9 @@ bool SimpleTraversability::updateAll()
     //if (inputs[MAX_STEP] && conf.ground_clearance == 0)
     //    throw std::runtime_error("a max_step band is available, but the ground clearance is set to zero");
 
+    // cells are unknown unless one of the bands says something else
+    std::fill(result.data(), result.data() + result.num_elements(), CLASS_UNKNOWN);
+
     int width = output_layer->getWidth(), height = output_layer->getHeight();
     for (int y = 0; y < height; ++y)
     {
-- 
2.43.0


From 120b0a4bae01c7a57cd49ed8f4ee7321433b08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 48/58] fix: TraversabilityGrassfire refuses an output of
 another size and forgets an earlier search

---
 src/operators/TraversabilityGrassfire.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index 396aa5f..ca43a32 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -431,6 +431,11 @@ bool envire::TraversabilityGrassfire::updateAll()
     if (!trGrid)
         throw std::runtime_error("TraversabilityGrassfire: no output band set");
 
+    if(mlsGrid->getCellSizeX() != trGrid->getCellSizeX() || mlsGrid->getCellSizeY() != trGrid->getCellSizeY())
+        throw std::runtime_error("TraversabilityGrassfire: input and output have different sizes");
+
+    //the patches of an earlier run that was interrupted might be gone
+    searchList = std::queue<SearchItem>();
     
     trData = &(trGrid->getGridData(TraversabilityGrid::TRAVERSABILITY));
 
-- 
2.43.0


From 3c35af5ba69b7f9bcc6416d742b179d6320549ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 49/58] fix: TraversabilityGrowClasses compares width and
 height and has a radius

---
 src/operators/TraversabilityGrowClasses.cpp | 2 +-
 src/operators/TraversabilityGrowClasses.hpp | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrowClasses.cpp b/src/operators/TraversabilityGrowClasses.cpp
index 405dc2f..de17f3c 100644
--- a/src/operators/TraversabilityGrowClasses.cpp
+++ b/src/operators/TraversabilityGrowClasses.cpp
@@ -31,7 +31,7 @@ void TraversabilityGrowClasses::growTerrains(TraversabilityGrid& mapIn, Traversa
     TraversabilityGrid::ArrayType& trDataOut = mapOut.getGridData(TraversabilityGrid::TRAVERSABILITY);
     TraversabilityGrid::ArrayType& probDataOut = mapOut.getGridData(TraversabilityGrid::PROBABILITY);
 
-    if(trDataIn.num_elements() != trDataOut.num_elements())
+    if(mapIn.getCellSizeX() != mapOut.getCellSizeX() || mapIn.getCellSizeY() != mapOut.getCellSizeY())
         throw std::runtime_error("ObjectGrowing, input and output data have differens sizes");
 
     memcpy(trDataOut.data(), trDataIn.data(), sizeof(uint8_t) * trDataIn.num_elements());
diff --git a/src/operators/TraversabilityGrowClasses.hpp b/src/operators/TraversabilityGrowClasses.hpp
index 27b6d3c..20b4b4c 100644
--- a/src/operators/TraversabilityGrowClasses.hpp
+++ b/src/operators/TraversabilityGrowClasses.hpp
@@ -9,6 +9,8 @@ class TraversabilityGrowClasses : public envire::Operator
 {
     ENVIRONMENT_ITEM( TraversabilityGrowClasses );
 public:
+    TraversabilityGrowClasses() : grid(NULL), gridOut(NULL), radius(0) {}
+
     virtual bool updateAll();
     
     void setRadius(double radius);
-- 
2.43.0


From 92496771b41674a46a283b31294d96b0c6d782e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 50/58] fix: vertex attributes were accessed with another type
 than ScanMeshing stores

---
 src/maps/Pointcloud.hpp         | 2 +-
 src/operators/CutPointcloud.cpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/maps/Pointcloud.hpp b/src/maps/Pointcloud.hpp
index fd17de0..2c15b40 100644
--- a/src/maps/Pointcloud.hpp
+++ b/src/maps/Pointcloud.hpp
@@ -57,7 +57,7 @@ namespace envire {
 	    vertices.clear();
 	    if( hasData( VERTEX_COLOR ) ) getVertexData<Eigen::Vector3d>( VERTEX_COLOR ).clear();
 	    if( hasData( VERTEX_NORMAL ) ) getVertexData<Eigen::Vector3d>( VERTEX_NORMAL ).clear();
-	    if( hasData( VERTEX_ATTRIBUTES ) ) getVertexData<attr_flag>( VERTEX_ATTRIBUTES ).clear();
+	    if( hasData( VERTEX_ATTRIBUTES ) ) getVertexData<vertex_attr>( VERTEX_ATTRIBUTES ).clear();
 	    if( hasData( VERTEX_VARIANCE ) ) getVertexData<double>( VERTEX_VARIANCE ).clear();
 	};
 
diff --git a/src/operators/CutPointcloud.cpp b/src/operators/CutPointcloud.cpp
index 2de614c..c33d87b 100644
--- a/src/operators/CutPointcloud.cpp
+++ b/src/operators/CutPointcloud.cpp
@@ -80,11 +80,11 @@ bool CutPointcloud::updateAll(){
     // get meta data
     std::vector<Eigen::Vector3d> *source_vertex_normal_data = NULL;
     std::vector<Eigen::Vector3d> *source_vertex_color_data = NULL;
-    std::vector<Pointcloud::attr_flag> *source_vertex_attributes_data = NULL;
+    std::vector<Pointcloud::vertex_attr> *source_vertex_attributes_data = NULL;
     std::vector<double> *source_vertex_variance_data = NULL;
     std::vector<Eigen::Vector3d> *target_vertex_normal_data = NULL;
     std::vector<Eigen::Vector3d> *target_vertex_color_data = NULL;
-    std::vector<Pointcloud::attr_flag> *target_vertex_attributes_data = NULL;
+    std::vector<Pointcloud::vertex_attr> *target_vertex_attributes_data = NULL;
     std::vector<double> *target_vertex_variance_data = NULL;
     if( sourcecloud->hasData(Pointcloud::VERTEX_NORMAL) )
     {
@@ -98,8 +98,8 @@ bool CutPointcloud::updateAll(){
     }
     if( sourcecloud->hasData(Pointcloud::VERTEX_ATTRIBUTES) )
     {
-        source_vertex_attributes_data = &sourcecloud->getVertexData<Pointcloud::attr_flag>( Pointcloud::VERTEX_ATTRIBUTES );
-        target_vertex_attributes_data = &targetcloud->getVertexData<Pointcloud::attr_flag>( Pointcloud::VERTEX_ATTRIBUTES );
+        source_vertex_attributes_data = &sourcecloud->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES );
+        target_vertex_attributes_data = &targetcloud->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES );
     }
     if( sourcecloud->hasData(Pointcloud::VERTEX_VARIANCE) )
     {
-- 
2.43.0


From dae22f6f50526bbfd1d56c94a79419df7ec2f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 51/58] fix: surface patches without a color had a random one

---
 src/maps/MLSPatch.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 12db02c..7e85fbc 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -54,6 +54,7 @@ struct SurfacePatch
 	n(1.0),
 	normsq(1.0/pow(stdev,4)),
 	update_idx(0), 
+	color(),
 	type(type) 
 	{
 	    plane.n = 1.0/pow(stdev,2);
@@ -68,6 +69,7 @@ struct SurfacePatch
 	n(1.0), 
 	normsq(1.0/pow(stdev,4)),
 	update_idx(0),
+	color(),
 	type( HORIZONTAL )
 	{
 	    updatePlane();
-- 
2.43.0


From 9e4c5965f7437ba4243d8fde7b2eff62c97e2650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 52/58] fix: GridFloatToMLS looked up values with the inverse
 transform and at cell corners

---
 src/operators/GridFloatToMLS.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index 2d99a33..16651f4 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -49,7 +49,7 @@ void GridFloatToMLS::setOutput( MLSGrid* mls )
 template<typename T>
 static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
 {
-    Transform mls2grid = grid->getEnvironment()->relativeTransform( grid, mls );
+    Transform mls2grid = grid->getEnvironment()->relativeTransform( mls, grid );
     
     boost::multi_array<T, 2>* grid_data;
     if (band_name.empty())
@@ -59,10 +59,10 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
 
     for (size_t yi = 0; yi < mls->getCellSizeY(); ++yi)
     {
-        double y = mls->getScaleY() * yi + mls->getOffsetY();
         for (size_t xi = 0; xi < mls->getCellSizeX(); ++xi)
         {
-            double x = mls->getScaleX() * xi + mls->getOffsetX();
+            double x, y;
+            mls->fromGrid(xi, yi, x, y);
             Eigen::Vector3d src_p = mls2grid * Eigen::Vector3d(x, y, 0);
             size_t src_xi, src_yi;
             if (!grid->toGrid(src_p.x(), src_p.y(), src_xi, src_yi))
-- 
2.43.0


From 70089aab1b69ae1cbf262e22c0ea27cf5e18adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 53/58] fix: MLSToPointCloud puts the points into the frame of
 the point cloud

---
 src/operators/MLSToPointCloud.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/operators/MLSToPointCloud.cpp b/src/operators/MLSToPointCloud.cpp
index afe2ec9..56429fc 100644
--- a/src/operators/MLSToPointCloud.cpp
+++ b/src/operators/MLSToPointCloud.cpp
@@ -34,6 +34,8 @@ bool MLSToPointCloud::updateAll()
     
     pointcloud->clear();
 
+    Transform mls2pc = env->relativeTransform(mls_grid, pointcloud);
+
     float vertical_distance = (mls_grid->getScaleX() + mls_grid->getScaleY()) * 0.5;
     if(vertical_distance <= 0.0)
 	vertical_distance = 0.1;
@@ -46,13 +48,12 @@ bool MLSToPointCloud::updateAll()
 	    for( MLSGrid::iterator cit = mls_grid->beginCell(x,y); cit != mls_grid->endCell(); cit++ )
 	    {
 		MLSGrid::SurfacePatch p( *cit );
-		Eigen::Vector3d cellPosWorld = mls_grid->fromGrid(x, y, mls_grid->getEnvironment()->getRootNode());
-		Eigen::Vector3d point(cellPosWorld);
+		Eigen::Vector3d point = mls_grid->fromGrid(x, y);
 		
 		if(p.isHorizontal())
 		{
-		    point[2] = cellPosWorld.z() + p.mean;
-		    pointcloud->vertices.push_back(point);
+		    point[2] = p.mean;
+		    pointcloud->vertices.push_back(mls2pc * point);
 		    
 		}
 		else if(p.isVertical())
@@ -61,8 +62,8 @@ bool MLSToPointCloud::updateAll()
 		    float max_z = (float)p.getMaxZ(0);
 		    for(float z = min_z; z <= max_z; z += vertical_distance)
 		    {
-			point[2] = cellPosWorld.z() + z;
-			pointcloud->vertices.push_back(point);
+			point[2] = z;
+			pointcloud->vertices.push_back(mls2pc * point);
 		    }
 		}
 	    }
-- 
2.43.0


From f8bb4a91002b4b44e9e7b1e1967e5f08f5caebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:21 +0000
Subject: [PATCH 54/58] fix: SimpleTraversability works with less than five
 classes

The drivability for unknown areas was taken from class 7, which exists for
class_count >= 5 only and is the mean for class_count = 10 only. With fewer
classes updateAll() threw after it had written the result.
---
 src/operators/SimpleTraversability.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 1e1df35..61d86a9 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -267,8 +267,8 @@ bool SimpleTraversability::updateAll()
         }
     }
 
-    // Traversability class 7 contains the mean driveability (0.55).
-    double mean_driveability = output_layer->getTraversabilityClass(7).getDrivability();
+    // The mean of the lowest and the highest driveability.
+    double mean_driveability = (1.0 / conf.class_count + 1.0) / 2.0;
     uint8_t mean_class_value = counter == 0 ? 0 : sum_classes / counter + 0.5;
     
     // If the map is completely unkown or full with obstacles, 
-- 
2.43.0


From 2c6316101c7d798afee65e60cbe3d57541effbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:21 +0000
Subject: [PATCH 55/58] fix: DistanceGridToPointcloud refuses images of another
 size

Cells outside of the image were read from beyond its data.
---
 src/operators/DistanceGridToPointcloud.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/DistanceGridToPointcloud.cpp b/src/operators/DistanceGridToPointcloud.cpp
index 9abeb54..a2461c5 100644
--- a/src/operators/DistanceGridToPointcloud.cpp
+++ b/src/operators/DistanceGridToPointcloud.cpp
@@ -40,6 +40,9 @@ bool DistanceGridToPointcloud::updateAll()
     DistanceGrid const& distanceGrid = *dist;
     Pointcloud& pointcloud = *env->getOutput< Pointcloud* >(this);
 
+    if( image && (image->getCellSizeX() != distanceGrid.getCellSizeX() || image->getCellSizeY() != distanceGrid.getCellSizeY()) )
+	throw std::runtime_error("DistanceGridToPointcloud: distance grid and image have different sizes");
+
     // get relative transform from grid frame to pointcloud frame
     Transform t = distanceGrid.getFrameNode()->relativeTransform( pointcloud.getFrameNode() );
     bool needsTransform = !t.isApprox( Transform( Transform::Identity() ) );
-- 
2.43.0


From e23faeb7a9419a7cae4617ac323dd5b04de25ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 56/58] fix: MergeMLS merges the grids of a map in a defined
 order

The children of a layer are ordered by their addresses, and what overlapping
grids are merged to depends on the order.
---
 src/operators/MergeMLS.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/operators/MergeMLS.cpp b/src/operators/MergeMLS.cpp
index f27cdab..d2ed93d 100644
--- a/src/operators/MergeMLS.cpp
+++ b/src/operators/MergeMLS.cpp
@@ -1,10 +1,22 @@
 #include "MergeMLS.hpp"
 #include <envire/maps/MLSMap.hpp>
+#include <algorithm>
+#include <functional>
 
 using namespace envire;
 
 ENVIRONMENT_ITEM_DEF( MergeMLS )
 
+// grids are merged in the order in which they were added to the map. The map
+// doesn't know this order e.g. after it was loaded.
+static bool inMergeOrder( MLSMap* map, Layer* a, Layer* b )
+{
+    const std::vector<MLSGrid::Ptr>& grids( map->getGrids() );
+    std::vector<MLSGrid::Ptr>::const_iterator ia = std::find( grids.begin(), grids.end(), a );
+    std::vector<MLSGrid::Ptr>::const_iterator ib = std::find( grids.begin(), grids.end(), b );
+    return ia != ib ? ia < ib : a->getUniqueId() < b->getUniqueId();
+}
+
 bool MergeMLS::updateAll()
 {
     MLSGrid* output = static_cast<envire::MLSGrid*>(*env->getOutputs(this).begin());
@@ -26,6 +38,7 @@ bool MergeMLS::updateAll()
 	    if( map )
 	    {
 		std::list<Layer*> children = env->getChildren( map );
+		children.sort( std::bind( inMergeOrder, map, std::placeholders::_1, std::placeholders::_2 ) );
 		for( std::list<Layer*>::iterator it2 = children.begin(); it2 != children.end(); it2++ )
 		{
 		    MLSGrid* grid = dynamic_cast<envire::MLSGrid*>(*it2);
-- 
2.43.0


From 66e24d5039e8ccf660df81a925937e7ab9a084a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:09 +0000
Subject: [PATCH 57/58] fix: SimpleTraversability marks cells that obstacles
 grow into as known

The probability was set for the obstacle itself instead, so obstacles that
grew into unknown cells had the probability of an unknown cell.
---
 src/operators/SimpleTraversability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 61d86a9..81bc1af 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -421,7 +421,7 @@ void SimpleTraversability::growObstacles(OutputLayer& map, std::string const& ba
 				&& ty >= 0 && ty < (int)map.getHeight() )
                         {
 			    data[ty][tx] = CLASS_OBSTACLE;
-                            probabilityArray[y][x] = std::numeric_limits< uint8_t >::max();
+                            probabilityArray[ty][tx] = std::numeric_limits< uint8_t >::max();
                         }
 		    }
 		}
-- 
2.43.0


From 45c91ab245ec8402e2599a8d7b98ea4f142b27fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:55 +0000
Subject: [PATCH 58/58] fix: ScanMeshing uses the first point of a scan for
 triangles

The index 0 was taken for a point that does not exist.
---
 src/operators/ScanMeshing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 491648c..eee170d 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -262,7 +262,7 @@ bool ScanMeshing::updateAll()
                     
                     // check polygon for existance and then see if all
                     // three edges are within the threshold limit
-                    if( (poly[idx[0]] > 0) && (poly[idx[1]] > 0) && (poly[idx[2]] > 0) && 
+                    if( (poly[idx[0]] >= 0) && (poly[idx[1]] >= 0) && (poly[idx[2]] >= 0) && 
                             (first_poly==-1 || (first_poly+n)%2==0 ) ) {
 
                         float dist_a = (points[poly[idx[0]]] - points[poly[idx[1]]]).norm();
-- 
2.43.0

