From 879d75222caea57d8c9769f16220e827b3809157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 001/106] fix: CDATASection::splitText could not be
 instantiated, or split a parentless section

The proxy called a method its implementation interface does not have, so
any use failed to compile; underneath, splitting a section with no parent
dereferenced null. The new section is owned by the document until it has
a parent, like any other parentless node.
---
 include/DOM/CDATASection.hpp            | 3 +--
 include/DOM/Simple/CDATASectionImpl.hpp | 5 ++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/DOM/CDATASection.hpp b/include/DOM/CDATASection.hpp
index e5b4f15..9f4ac0a 100644
--- a/include/DOM/CDATASection.hpp
+++ b/include/DOM/CDATASection.hpp
@@ -35,8 +35,7 @@ class CDATASection : public Text<stringT, string_adaptorT>
 
     CDATASection<stringT, string_adaptorT> splitText(int offset) 
     { 
-      TextT::tImpl()->throwIfReadOnly();
-      return static_cast<CDATASection<stringT, string_adaptorT> >(TextT::tImpl()->splitText(offset)); 
+      return CDATASection<stringT, string_adaptorT>(dynamic_cast<CDATASection_impl<stringT, string_adaptorT>*>(TextT::tImpl()->splitText(offset)));
     } // splitText
 }; // class CDATASection
 
diff --git a/include/DOM/Simple/CDATASectionImpl.hpp b/include/DOM/Simple/CDATASectionImpl.hpp
index 2dbdda5..653f0e6 100644
--- a/include/DOM/Simple/CDATASectionImpl.hpp
+++ b/include/DOM/Simple/CDATASectionImpl.hpp
@@ -35,7 +35,10 @@ class CDATASectionImpl : public DOM::CDATASection_impl<stringT, string_adaptorT>
       CharacterDataImplT::deleteData(offset, CharacterDataImplT::getLength() - offset);
 
       CDATASectionImpl* splitNode = new CDATASectionImpl(CharacterDataImplT::getOwnerDoc(), second);
-      CharacterDataImplT::getParentNode()->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
+      CharacterDataImplT::getOwnerDoc()->orphaned(splitNode);
+      DOMNode_implT* parent = CharacterDataImplT::getParentNode();
+      if(parent)
+        parent->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
       return splitNode;
     } // splitText
 
-- 
2.43.0


From f23b434d468c92feabaf010854156669a595b0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 002/106] fix: splitting a parentless Text node leaked the new
 node

Nothing owned it: the document did not know of it, so it outlived it.
---
 include/DOM/Simple/TextImpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/DOM/Simple/TextImpl.hpp b/include/DOM/Simple/TextImpl.hpp
index b0f95f7..dc722af 100644
--- a/include/DOM/Simple/TextImpl.hpp
+++ b/include/DOM/Simple/TextImpl.hpp
@@ -36,6 +36,7 @@ class TextImpl : public DOM::Text_impl<stringT, string_adaptorT>,
       CharacterDataT::deleteData(offset, CharacterDataT::getLength() - offset);
 
       TextImpl* splitNode = new TextImpl(CharacterDataT::getOwnerDoc(), second);
+      CharacterDataT::getOwnerDoc()->orphaned(splitNode);
       DOMNode_implT *parent = CharacterDataT::getParentNode();
       if(parent)
         parent->insertBefore(splitNode, CharacterDataT::getNextSibling());
-- 
2.43.0


From 5df6686f0612d79c301f39dd0e93bb56c0e8d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 003/106] fix: assigning a DOM handle to itself, or to a node
 of the tree it alone kept alive, used freed memory

The old reference was released before the new one was taken.
---
 include/DOM/Proxy.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/DOM/Proxy.hpp b/include/DOM/Proxy.hpp
index 7ed415c..5e3028d 100644
--- a/include/DOM/Proxy.hpp
+++ b/include/DOM/Proxy.hpp
@@ -53,16 +53,11 @@ class Proxy
   private:
     void setImpl(ImplementationT* const impl)
     {
+      if(impl)
+        impl->addRef(); // before the release: the old impl may be all that keeps the new one alive
       if(impl_)
-      {
         impl_->releaseRef();
-        impl_ = 0;
-      }
-      if(impl)
-      {
-        impl_ = impl;
-        impl_->addRef();
-      } // if(impl)
+      impl_ = impl;
     } // setImpl
 
     // the thing that actually does the work!
-- 
2.43.0


From 04457e13d8bb42324acc2a8d37103e87bff47e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 004/106] fix: insertBefore and replaceChild detached the new
 child before finding the reference child

A refused call (NOT_FOUND_ERR) left the new child torn out of its tree, and
inserting a node before itself, or replacing it by itself, lost it.
---
 include/DOM/Simple/NodeImpl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index e9a8586..860d28c 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -398,6 +398,10 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       } // if ...
 
       checkCanAdd(newChild);
+      if(refChild)
+        findChild(refChild);
+      if(newChild == refChild)
+        return newChild;
       removeIfRequired(newChild);
       if(refChild)
       {
@@ -441,6 +445,9 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       } // if ...
 
       checkCanAdd(newChild);
+      findChild(oldChild);
+      if(newChild == oldChild)
+        return oldChild;
       removeIfRequired(newChild);
       typename std::deque<NodeImplT*>::iterator result = findChild(oldChild);
       *result = newChild;
-- 
2.43.0


From 40da2663ccd416c0a24fecb44ba89c4f4eea1cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 005/106] fix: document fragments inserted into themselves, or
 replaced with while empty

Appending a fragment to itself or to something it holds looped for ever;
replacing a child with an empty fragment dereferenced null; replacing
something which isn't a child tore the fragment apart first.
---
 include/DOM/Simple/NodeImpl.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index 860d28c..194eb57 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -392,6 +392,7 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
 
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
+        checkNotWithin(newChild);
         for(NodeImplT* child = newChild->getFirst(); child != 0; child = newChild->getFirst())
           insertBefore(newChild->removeChild(child), refChild);
         return newChild;
@@ -437,8 +438,12 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
 
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
+        checkNotWithin(newChild);
+        findChild(oldChild);
         // not exception safe - but the it's not specified to be :(
         DOMNode_implT* lc = newChild->getLastChild();
+        if(lc == 0)
+          return dynamic_cast<NodeImplT*>(removeChild(oldChild));
         replaceChild(newChild->removeChild(lc), oldChild);
         insertBefore(newChild, lc);
         return oldChild;
@@ -540,13 +545,18 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       if(NodeImplT::getOwnerDocument() && childDoc != NodeImplT::getOwnerDocument())
         throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
 
-      for(DOMNode_implT* n = this; n != 0; n = n->getParentNode())
-	if(n == child)
-	  throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      checkNotWithin(child);
 
       checkChildType(child);
     } // checkCanAdd
 
+    void checkNotWithin(NodeImplT* node) const
+    {
+      for(const DOMNode_implT* n = this; n != 0; n = n->getParentNode())
+	if(n == node)
+	  throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+    } // checkNotWithin
+
     virtual void checkChildType(DOMNode_implT* child) = 0;
 
     void markChanged()
-- 
2.43.0


From da3fe8e0244e38bd3f50f721f9cf94d90c4572b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 006/106] fix: a document could be appended to itself, and a
 new document type to anything

Neither went through the check of the type of the child.
---
 include/DOM/Simple/NodeImpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index 194eb57..53b9d30 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -531,6 +531,7 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       DocumentImplT* childDoc = child->getOwnerDoc();
       if(childDoc == 0)
       {
+        checkChildType(child);
         child->setOwnerDoc(NodeImplT::getOwnerDoc());
         return;
       } //
@@ -539,7 +540,7 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       {
         if(childDoc != dynamic_cast<DocumentImplT*>(this))
           throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
-        return;
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
       } // if(parent is a Document)
 
       if(NodeImplT::getOwnerDocument() && childDoc != NodeImplT::getOwnerDocument())
-- 
2.43.0


From f87e4663a725e748c55b3ce71219970913ad3736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 007/106] fix: Document.replaceChild left documentElement and
 doctype out of step with the children

Replacing the document element by a comment or processing instruction left
the removed element as documentElement; a second document type could be
brought in, and one brought in was not recorded; the document type,
which cannot be removed, could be replaced.
---
 include/DOM/Simple/DocumentImpl.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index d83761e..ccc33b0 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -413,7 +413,9 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     {
       checkChildType(newChild);
 
-      if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ == oldChild))
+      if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ != 0))
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      if((documentType_ != 0) && (documentType_ == oldChild))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
       if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
          (documentElement_ != 0) &&
@@ -422,9 +424,10 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
       DOMNode_implT* result = NodeWithChildrenT::replaceChild(newChild, oldChild);
 
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
-         ((documentElement_ == 0) || (documentElement_ == oldChild)))
+      if((documentElement_ == 0) || (documentElement_ == oldChild))
         documentElement_ = dynamic_cast<DOMElement_implT*>(newChild);
+      if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE)
+        documentType_ = dynamic_cast<DOMDocumentType_implT*>(newChild);
 
       return result;
     } // replaceChild
-- 
2.43.0


From dc70eb7b4473ebe2074681afb43d229d6455e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 008/106] fix: purgeChild left the document pointing at
 destroyed nodes

documentElement and the ID attributes still referred to the purged subtree.
---
 include/DOM/Simple/DocumentImpl.hpp | 10 ++++++++++
 include/DOM/Simple/NodeImpl.hpp     |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index ccc33b0..e75e760 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -484,6 +484,16 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     void purge(NodeImplT* node)
     {
+      for(typename std::set<AttrImplT*>::iterator i = idNodes_.begin(); i != idNodes_.end(); )
+      {
+        DOMNode_implT* n = (*i)->getOwnerElement();
+        while((n != 0) && (n != node))
+          n = n->getParentNode();
+        if(n != 0)
+          idNodes_.erase(i++);
+        else
+          ++i;
+      } // for ...
       orphans_.erase(node);
       delete node;
     } // purge
diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index 53b9d30..6cbeed1 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -505,7 +505,7 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
 
     void do_purgeChild(NodeImplT* oldChild)
     {
-      oldChild = do_removeChild(oldChild);
+      removeChild(oldChild);
       NodeImplT::ownerDoc_->purge(oldChild);
     } // do_purgeChild
 
-- 
2.43.0


From 52bbaf81f45197c064182e7a39f4b9e95c93ef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 009/106] fix: an attribute's value did not follow changes to
 its text

The value is cached, and was not recalculated when the data of a child
text node changed.
---
 include/DOM/Simple/AttrImpl.hpp          |  2 ++
 include/DOM/Simple/CharacterDataImpl.hpp | 11 +++++++++++
 include/DOM/Simple/NodeImpl.hpp          |  2 ++
 3 files changed, 15 insertions(+)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index f032206..f770bef 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -160,6 +160,8 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
       } // if(ownerDoc_)
     } // setOwnerElement
 
+    virtual void childValueChanged() { valueCalculated_ = false; }
+
     void setSpecified(bool specified) { specified_ = specified; }
 
     bool isOrphaned()
diff --git a/include/DOM/Simple/CharacterDataImpl.hpp b/include/DOM/Simple/CharacterDataImpl.hpp
index d4d34a1..5dc5d95 100644
--- a/include/DOM/Simple/CharacterDataImpl.hpp
+++ b/include/DOM/Simple/CharacterDataImpl.hpp
@@ -55,6 +55,7 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
     {
       NodeT::throwIfReadOnly();
       string_adaptorT::append(data_, arg);
+      valueChanged();
     } // appendData
 
     virtual void insertData(int offset, const stringT& arg)
@@ -65,6 +66,7 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
         throw DOM::DOMException(DOM::DOMException::INDEX_SIZE_ERR);
 
       string_adaptorT::insert(data_, offset, arg);
+      valueChanged();
     } // insertData
 
     virtual void deleteData(int offset, int count)
@@ -77,6 +79,7 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
         throw DOM::DOMException(DOM::DOMException::INDEX_SIZE_ERR);
 
       string_adaptorT::replace(data_, offset, count, stringT());
+      valueChanged();
     } // deleteData
 
     virtual void replaceData(int offset, int count, const stringT& arg)
@@ -89,6 +92,7 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
         throw DOM::DOMException(DOM::DOMException::INDEX_SIZE_ERR);
 
       string_adaptorT::replace(data_, offset, count, arg);
+      valueChanged();
     } // replaceData
 
     ///////////////////////////////////////////////////////
@@ -103,8 +107,15 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
       NodeT::throwIfReadOnly();
 
       data_ = data;
+      valueChanged();
     } // setNodeValue
   private:
+    void valueChanged()
+    {
+      if(NodeT::parentNode_)
+        NodeT::parentNode_->childValueChanged();
+    } // valueChanged
+
     stringT data_;
 }; // class CharacterDataImpl
 
diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index 6cbeed1..c1c1a5b 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -150,6 +150,8 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
 
     /////////////////////////////////////////////////////
     // implementation specific method
+    virtual void childValueChanged() { }
+
     void setParentNode(NodeImplT* parent)
     {
       if(!parent && parentNode_ && ownerDoc_)
-- 
2.43.0


From 0e4df1401483a69a634b219bdb1093bda0b5d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 010/106] fix: attributes removed or replaced kept their owner
 element and their ID

ownerElement still named the element the attribute had left, so it could
not be used elsewhere, and getElementById went on finding the element by an
ID it no longer has. An attribute refused as belonging to another document
was given the owner element, and one refused by a read-only element stayed
registered as an ID.
---
 include/DOM/Simple/AttrImpl.hpp |  6 ++++++
 include/DOM/Simple/AttrMap.hpp  | 24 ++++++++++++++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index f770bef..bd02c9e 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -160,6 +160,12 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
       } // if(ownerDoc_)
     } // setOwnerElement
 
+    void clearOwnerElement()
+    {
+      ownerElement_ = 0;
+      NodeT::ownerDoc_->removeElementId(this);
+    } // clearOwnerElement
+
     virtual void childValueChanged() { valueCalculated_ = false; }
 
     void setSpecified(bool specified) { specified_ = specified; }
diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 0462926..0054e83 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -42,20 +42,21 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
       checkNotInUse(attr);
+      NamedNodeMapImplT::checkOwnerDocument(attr);
       attr->setOwnerElement(ownerElement_);
-      return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItem(attr));
+      return disowned(NamedNodeMapImplT::setNamedItem(attr));
     } // setNamedItem
 
     virtual DOMNode_implT* removeNamedItem(const stringT& name)
     {
-      DOMNode_implT* n = NamedNodeMapImplT::removeNamedItem(name);
+      DOMNode_implT* n = disowned(NamedNodeMapImplT::removeNamedItem(name));
       createDefault(name);
       return n;
     } // removeNamedItem
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
     {
-      DOMNode_implT* n = NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName);
+      DOMNode_implT* n = disowned(NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName));
       createDefault(namespaceURI, localName);
       return n;
     } // removedNamedItemNS   
@@ -70,9 +71,10 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void setAttribute(const stringT& name, const stringT& value)    
     {
+      NamedNodeMapImplT::throwIfReadOnly();
       AttrImplT* a = new AttrImplT(NamedNodeMapImplT::ownerDoc_, name, value);
       a->setOwnerElement(ownerElement_);
-      NamedNodeMapImplT::setNamedItem(a);
+      disowned(NamedNodeMapImplT::setNamedItem(a));
     } // setAttribute
 
     void removeAttribute(const stringT& name)    
@@ -106,13 +108,14 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void setAttributeNS(const stringT& namespaceURI, const stringT& qualifiedName, const stringT& value)    
     {
+      NamedNodeMapImplT::throwIfReadOnly();
       AttrNSImplT* a = new AttrNSImplT(NamedNodeMapImplT::ownerDoc_, 
                                        namespaceURI, 
                                        !string_adaptorT::empty(namespaceURI), 
                                        qualifiedName);
       a->setValue(value);
       a->setOwnerElement(ownerElement_);
-      NamedNodeMapImplT::setNamedItemNS(a);
+      disowned(NamedNodeMapImplT::setNamedItemNS(a));
     } // setAttributeNS
 
     void removeAttributeNS(const stringT& namespaceURI, const stringT& localName)    
@@ -137,8 +140,9 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
       checkNotInUse(attr);
+      NamedNodeMapImplT::checkOwnerDocument(attr);
       attr->setOwnerElement(ownerElement_);
-      return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItemNS(newAttr));
+      return disowned(NamedNodeMapImplT::setNamedItemNS(newAttr));
     } // setNamedItem
 
     bool hasAttribute(const stringT& name) const    
@@ -164,6 +168,14 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     } // setOwnerDoc
 
   private:
+    DOMAttr_implT* disowned(DOMNode_implT* removed)
+    {
+      AttrImplT* attr = dynamic_cast<AttrImplT*>(removed);
+      if(attr)
+        attr->clearOwnerElement();
+      return attr;
+    } // disowned
+
     void createDefault(const stringT& name) 
     {
       DOMNamedNodeMap_implT* attrs = getDefaultAttrs();
-- 
2.43.0


From 7a9b1ec50cfc94a7abbc477f4a4a005bee4edfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 011/106] fix: lists of elements by tag name went stale

item() compared the index with the length before the last change - off the
end of the list when it had shrunk, null when it had grown - and a change of
prefix, which changes the tag name, was not noticed.
---
 include/DOM/Simple/ElementByTagImpl.hpp | 6 +++---
 include/DOM/Simple/ElementNSImpl.hpp    | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/DOM/Simple/ElementByTagImpl.hpp b/include/DOM/Simple/ElementByTagImpl.hpp
index 2607619..79c5e65 100644
--- a/include/DOM/Simple/ElementByTagImpl.hpp
+++ b/include/DOM/Simple/ElementByTagImpl.hpp
@@ -74,12 +74,12 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     // DOM::NodeList methods
     virtual DOM::Node_impl<stringT, string_adaptorT>* item(unsigned int index) const
     {
-      if(index >= nodes_.size())
-        return 0;
-
       if(changes_ != ownerDoc_->changes())
         populate();
 
+      if(index >= nodes_.size())
+        return 0;
+
       return nodes_[index];
     } // item
 
diff --git a/include/DOM/Simple/ElementNSImpl.hpp b/include/DOM/Simple/ElementNSImpl.hpp
index 9bc88ff..f5bbd8c 100644
--- a/include/DOM/Simple/ElementNSImpl.hpp
+++ b/include/DOM/Simple/ElementNSImpl.hpp
@@ -78,6 +78,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
       {
         ElementImplT::tagName_ = localName_;
         prefix_ = &ElementImplT::ownerDoc_->empty_string();
+        ElementImplT::ownerDoc_->markChanged();
         return;
       } // empty prefix
 
@@ -89,6 +90,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
 
       prefix_ = ElementImplT::ownerDoc_->stringPool(prefix);
       ElementImplT::tagName_ = ElementImplT::ownerDoc_->stringPool(newTagName);
+      ElementImplT::ownerDoc_->markChanged();
     } // setPrefix
 
     virtual const stringT& getLocalName() const 
-- 
2.43.0


From 1dc686fea51ec9add2fe0af6b314c50377bcfc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 012/106] fix: asking a document type not yet in a document for
 its value or namespace dereferenced null

It has no owner document to borrow the empty string from.
---
 include/DOM/Simple/NodeImpl.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index c1c1a5b..59aebdf 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -66,7 +66,7 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
     // Node methods
     virtual const stringT& getNodeName() const = 0;
 
-    virtual const stringT& getNodeValue() const { return ownerDoc_->empty_string(); }
+    virtual const stringT& getNodeValue() const { return empty_string(); }
     virtual void setNodeValue(const stringT& /*nodeValue*/) { }
 
     virtual DOM::Node_base::Type getNodeType() const = 0;
@@ -132,10 +132,10 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       return false;
     } // isSupported
 
-    virtual const stringT& getNamespaceURI() const { return ownerDoc_->empty_string(); }
-    virtual const stringT& getPrefix() const { return ownerDoc_->empty_string(); }
+    virtual const stringT& getNamespaceURI() const { return empty_string(); }
+    virtual const stringT& getPrefix() const { return empty_string(); }
     virtual void setPrefix(const stringT& /*prefix*/) { }
-    virtual const stringT& getLocalName() const { return ownerDoc_->empty_string(); }
+    virtual const stringT& getLocalName() const { return empty_string(); }
 
     // additional methods - since C++ std::string (and by implication
     // stringT) don't differenciate between a null string and an empty string,
@@ -208,6 +208,12 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
 
 
   protected:
+    const stringT& empty_string() const
+    {
+      static const stringT empty;
+      return ownerDoc_ ? ownerDoc_->empty_string() : empty;
+    } // empty_string
+
     void checkName(const stringT& str) const
     {
       if(string_adaptorT::length(str) == 0)
-- 
2.43.0


From 9617bab3f415e4239661aee50c80a3a90a4fa93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 013/106] fix: a refused insertBefore or replaceChild could
 still adopt a new document type

The reference child is looked for before the new child is given an owner.
---
 include/DOM/Simple/NodeImpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index 59aebdf..2db3ee8 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -406,9 +406,9 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
         return newChild;
       } // if ...
 
-      checkCanAdd(newChild);
       if(refChild)
         findChild(refChild);
+      checkCanAdd(newChild);
       if(newChild == refChild)
         return newChild;
       removeIfRequired(newChild);
@@ -457,8 +457,8 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
         return oldChild;
       } // if ...
 
-      checkCanAdd(newChild);
       findChild(oldChild);
+      checkCanAdd(newChild);
       if(newChild == oldChild)
         return oldChild;
       removeIfRequired(newChild);
-- 
2.43.0


From 13dc9ffacce3b79d818a6c1139de130339e21f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 014/106] fix: a Comment could not be cast to CharacterData,
 which it is

---
 include/DOM/CharacterData.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/DOM/CharacterData.hpp b/include/DOM/CharacterData.hpp
index 02dfd4f..e17af09 100644
--- a/include/DOM/CharacterData.hpp
+++ b/include/DOM/CharacterData.hpp
@@ -30,7 +30,7 @@ class CharacterData : public Node<stringT, string_adaptorT>
 	  if(NodeT::impl_ == 0) // null nodes can always be cast
 		return;
       typename NodeT::Type type = rhs.getNodeType();
-      if((type != NodeT::TEXT_NODE) && (type != NodeT::CDATA_SECTION_NODE))
+      if((type != NodeT::TEXT_NODE) && (type != NodeT::CDATA_SECTION_NODE) && (type != NodeT::COMMENT_NODE))
         throw DOMBadCast("CharacterData");
     } // CharacterData
 
-- 
2.43.0


From 8c541ed7101a85d4c173734cf75dca11d1418abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 015/106] fix: setNamedItemNS with a DOM Level 1 attribute
 replaced whichever Level 1 attribute came first

Such an attribute has no local name, and an empty local name matched any of
them. Default attributes are put back this way, so removing one attribute
could take another with it, and an element type with several defaults got
only the last of them.
---
 include/DOM/Simple/NamedNodeMapImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index 6d60dc7..699dccf 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -138,7 +138,9 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
     {
       throwIfReadOnly();
       checkOwnerDocument(arg);
-      return setNode(findByNamespaceAndName(arg->getNamespaceURI(), arg->getLocalName()), dynamic_cast<NodeImplT*>(arg));
+      // a DOM Level 1 node has no local name
+      const stringT& name = string_adaptorT::empty(arg->getLocalName()) ? arg->getNodeName() : arg->getLocalName();
+      return setNode(findByNamespaceAndName(arg->getNamespaceURI(), name), dynamic_cast<NodeImplT*>(arg));
     } // setNamedItemNS
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
-- 
2.43.0


From 2c5db2c045e9b0d1137685a6e24d261cce6fc5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 016/106] fix: removeAttributeNode removed the first attribute
 of that name, not the one given

Two attributes in different namespaces can have the same qualified name.
---
 include/DOM/Simple/AttrMap.hpp          | 3 ++-
 include/DOM/Simple/NamedNodeMapImpl.hpp | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 0054e83..b5a1e31 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -96,7 +96,8 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     {
       if(oldAttr->getOwnerElement() != ownerElement_)
         throw DOM::DOMException(DOM::DOMException::NOT_FOUND_ERR);
-      removeNamedItem(oldAttr->getNodeName());
+      disowned(NamedNodeMapImplT::removeItem(dynamic_cast<AttrImplT*>(oldAttr)));
+      createDefault(oldAttr->getNodeName());
       return oldAttr;
     } // removeAttributeNode
 
diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index 699dccf..9f405c7 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -179,6 +179,12 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
 	throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
     } // checkOwnerDocument
 
+    NodeImplT* removeItem(NodeImplT* node)
+    {
+      throwIfReadOnly();
+      return removeNode(std::find(nodes_.begin(), nodes_.end(), node));
+    } // removeItem
+
   private:
     typedef std::deque<NodeImplT*> NodeListT;
 
-- 
2.43.0


From a14d8df3da07819c7874f585fff173b80f5560c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:58 +0000
Subject: [PATCH 017/106] fix: TreeWalker went backwards for nextSibling, lost
 its place in previousNode, and stopped short at skipped nodes

---
 include/DOM/Traversal/TreeWalkerImpl.hpp | 246 +++++++++--------------
 1 file changed, 95 insertions(+), 151 deletions(-)

diff --git a/include/DOM/Traversal/TreeWalkerImpl.hpp b/include/DOM/Traversal/TreeWalkerImpl.hpp
index 79226a0..59a6193 100644
--- a/include/DOM/Traversal/TreeWalkerImpl.hpp
+++ b/include/DOM/Traversal/TreeWalkerImpl.hpp
@@ -57,86 +57,76 @@ public:
 
   node_t parentNode()
   {
-    node_t n = getParentNodeImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
+    return moveTo(visibleParent(currentNode_));
   }
 
   node_t firstChild()
   {
-    node_t n = getFirstChildImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
+    return moveTo(visibleChild(currentNode_, true));
   }
 
   node_t lastChild()
   {
-    node_t n = getLastChildImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
+    return moveTo(visibleChild(currentNode_, false));
   }
 
   node_t previousSibling()
   {
-    node_t n = getPreviousSiblingImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
+    return moveTo(visibleSibling(currentNode_, false));
   }
 
   node_t nextSibling()
   {
-    node_t n = getPreviousSiblingImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
+    return moveTo(visibleSibling(currentNode_, true));
   }
 
   node_t previousNode()
   {
-    node_t n = getPreviousSiblingImpl(currentNode_);
-    if(n != 0)
+    node_t n = currentNode_;
+    while(n != 0 && n != root_)
     {
-      node_t last_child = getLastChildImpl(n);
-      currentNode_ = (last_child != 0) ? last_child : n;
-      return currentNode_;
-    }
-    else
-    {
-      n = getParentNodeImpl(n);
-      if(n != 0)
-        currentNode_ = n;
-      return n;
+      for(node_t sibling = n.getPreviousSibling(); sibling != 0; sibling = n.getPreviousSibling())
+      {
+        // the last thing visible inside the sibling, or else the sibling itself
+        n = sibling;
+        filter_result_t accept = acceptNode(n);
+        for(node_t child = childOf(n, false);
+            accept != filter_t::FILTER_REJECT && child != 0;
+            child = childOf(n, false))
+        {
+          n = child;
+          accept = acceptNode(n);
+        }
+        if(accept == filter_t::FILTER_ACCEPT)
+          return moveTo(n);
+      }
+
+      n = n.getParentNode();
+      if(n != 0 && acceptNode(n) == filter_t::FILTER_ACCEPT)
+        return moveTo(n);
     }
+
+    return empty_node();
   }
 
   node_t nextNode()
   {
-    node_t n = getFirstChildImpl(currentNode_);
-    if(n != 0)
+    node_t n = currentNode_;
+    filter_result_t accept = filter_t::FILTER_ACCEPT;
+    while(n != 0)
     {
-      currentNode_ = n;
-      return n;
-    }
-
-    n = getNextSiblingImpl(currentNode_);
-    if(n != 0)
-    {
-      currentNode_ = n;
-      return n;
-    }
-
-    for(node_t parent = getParentNodeImpl(currentNode_); parent != 0; parent = getParentNodeImpl(parent))
-    { 
-      n = getNextSiblingImpl(parent);
-      if(n != 0)
+      node_t next = (accept != filter_t::FILTER_REJECT) ? childOf(n, true) : empty_node();
+      for(node_t up = n; next == 0; up = up.getParentNode())
       {
-        currentNode_ = n;
-        return n;
+        if(up == 0 || up == root_)
+          return empty_node();
+        next = up.getNextSibling();
       }
+
+      n = next;
+      accept = acceptNode(n);
+      if(accept == filter_t::FILTER_ACCEPT)
+        return moveTo(n);
     }
 
     return empty_node();
@@ -149,126 +139,80 @@ public:
   }
 
 protected:
-  node_t getParentNodeImpl(node_t& node)
+  node_t moveTo(const node_t& node)
   {
-    if(node == 0 || node == root_)
-      return empty_node();
-
-    node_t new_node = node.getParentNode();
-    if (new_node == 0|| new_node == root_) //todo: check for root here?
-      return empty_node();
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else
-      return getParentNodeImpl(new_node);
+    if(node != 0)
+      currentNode_ = node;
+    return node;
   }
 
-  node_t getNextSiblingImpl(node_t& node)
+  node_t childOf(const node_t& node, bool first)
   {
-    if(node == 0 || node == root_)
+    if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
       return empty_node();
-
-    node_t new_node = node.getNextSibling();
-    if (new_node == 0)
-    {
-      new_node = node.getParentNode();
-      if (new_node == 0 || new_node == root_)
-        return empty_node();
-
-      filter_result_t accept = acceptNode(new_node);
-      if (filter_t::FILTER_SKIP == accept)
-        return getNextSiblingImpl(new_node);
-      else
-        return empty_node();
-    }
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept)
-    {
-      node_t child = getFirstChildImpl(new_node);
-      if (child == 0 && !new_node.hasChildNodes())
-        return getNextSiblingImpl(new_node);
-      else
-        return child;
-    }
-    else
-      return getNextSiblingImpl(new_node);
+    return first ? node.getFirstChild() : node.getLastChild();
   }
-  
-  node_t getPreviousSiblingImpl(node_t& node)
+
+  static node_t siblingOf(const node_t& node, bool next)
   {
-    if(node == 0 || node == root_)
-      return empty_node();
+    return next ? node.getNextSibling() : node.getPreviousSibling();
+  }
 
-    node_t new_node = node.getPreviousSibling();
-    if (new_node == 0)
+  node_t visibleParent(node_t node)
+  {
+    while(node != 0 && node != root_)
     {
-      new_node = node.getParentNode();
-      if (new_node == 0 || new_node == root_)
-        return empty_node();
-     
-      filter_result_t accept = acceptNode(new_node);
-      if (filter_t::FILTER_SKIP == accept)
-        return getPreviousSiblingImpl(new_node);
-      else
-        return empty_node();
+      node = node.getParentNode();
+      if(node != 0 && acceptNode(node) == filter_t::FILTER_ACCEPT)
+        return node;
     }
+    return empty_node();
+  }
 
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept)
+  // the first (or last) accepted node below node, looking through skipped 
+  // nodes and past rejected ones
+  node_t visibleChild(const node_t& node, bool first)
+  {
+    for(node_t child = childOf(node, first); child != 0; child = siblingOf(child, first))
     {
-      node_t child = getLastChildImpl(new_node);
-      if (child == 0 && !new_node.hasChildNodes())
-        return getPreviousSiblingImpl(new_node);
-      else
+      filter_result_t accept = acceptNode(child);
+      if(accept == filter_t::FILTER_ACCEPT)
         return child;
+      if(accept == filter_t::FILTER_SKIP)
+      {
+        node_t grandchild = visibleChild(child, first);
+        if(grandchild != 0)
+          return grandchild;
+      }
     }
-    else
-      return getPreviousSiblingImpl(new_node);
+    return empty_node();
   }
 
-  node_t getFirstChildImpl(node_t& node)
+  // skipped parents are not there, so their siblings are our siblings
+  node_t visibleSibling(node_t node, bool next)
   {
-    if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
-      return empty_node();
-
-    node_t new_node = node.getFirstChild();
-    if (new_node == 0)
-      return empty_node();
+    while(node != 0 && node != root_)
+    {
+      for(node_t sibling = siblingOf(node, next); sibling != 0; sibling = siblingOf(sibling, next))
+      {
+        filter_result_t accept = acceptNode(sibling);
+        if(accept == filter_t::FILTER_ACCEPT)
+          return sibling;
+        if(accept == filter_t::FILTER_SKIP)
+        {
+          node_t child = visibleChild(sibling, next);
+          if(child != 0)
+            return child;
+        }
+      }
 
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept && new_node.hasChildNodes())
-      return getFirstChildImpl(new_node);
-    else
-      return getNextSiblingImpl(new_node);
+      node = node.getParentNode();
+      if(node == 0 || node == root_ || acceptNode(node) != filter_t::FILTER_SKIP)
+        return empty_node();
+    }
+    return empty_node();
   }
 
-  node_t getLastChildImpl(node_t& node)
-  {
-    if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
-      return empty_node();
-
-    node_t new_node = node.getLastChild();
-    if (new_node == 0)
-      return empty_node();
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept && new_node.hasChildNodes())
-      return getLastChildImpl(new_node);
-    else
-      return getPreviousSiblingImpl(new_node);
-  }
-  
   //node-filter will only be checked if what-to-show succeeds
   filter_result_t acceptNode(node_t const& node)
   {
-- 
2.43.0


From dba232937e5f2b1fbd74aa74fbbcf7fbaef6d76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:04 +0000
Subject: [PATCH 018/106] fix: relative URI references were resolved wrongly,
 or threw, for anything but plain paths

---
 include/io/uri.hpp |  14 +++-
 src/io/uri.cpp     | 190 ++++++++++++++++++++++++++++++++-------------
 2 files changed, 148 insertions(+), 56 deletions(-)

diff --git a/include/io/uri.hpp b/include/io/uri.hpp
index 3ffee5f..fe2bf63 100644
--- a/include/io/uri.hpp
+++ b/include/io/uri.hpp
@@ -11,7 +11,8 @@ namespace Arabica
     {
     public:
       URI():
-          is_absolute_(false)
+          is_absolute_(false),
+          has_authority_(false)
       {
       }
 
@@ -24,7 +25,8 @@ namespace Arabica
         host_(rhs.host_),
         path_(rhs.path_),
         port_(rhs.port_),
-	    is_absolute_(rhs.is_absolute_)
+	    is_absolute_(rhs.is_absolute_),
+        has_authority_(rhs.has_authority_)
       {
       } // URI
 
@@ -41,7 +43,8 @@ namespace Arabica
                host_ == rhs.host_ &&
                path_ == rhs.path_ &&
                port_ == rhs.port_ &&
-	       is_absolute_ == rhs.is_absolute_;
+	       is_absolute_ == rhs.is_absolute_ &&
+               has_authority_ == rhs.has_authority_;
       } // operator==
 
       bool operator!=(const URI& rhs) const
@@ -58,6 +61,7 @@ namespace Arabica
         std::swap(path_, rhs.path_);
         std::swap(port_, rhs.port_);
 	      std::swap(is_absolute_, rhs.is_absolute_);
+        std::swap(has_authority_, rhs.has_authority_);
       } // swap
 
       const std::string& scheme() const { return scheme_; }
@@ -71,15 +75,17 @@ namespace Arabica
     private:
       void parse(const std::string& URI);
       void parse_uri(const std::string& URI);
+      void set_absolute();
       std::string::const_iterator parseAuthority(const std::string::const_iterator& u, const std::string::const_iterator& ue);
       void absolutise(URI& relURI);
-      void combinePath(const std::string& path);
+      std::string combinePath(const std::string& basePath, const std::string& relPath) const;
 
       std::string scheme_;
       std::string host_;
       std::string path_;
       std::string port_;
       bool is_absolute_;
+      bool has_authority_;
     }; // class URI
   } // namespace io
 } // namespace Arabica
diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 24e3cf6..09bde47 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -1,5 +1,6 @@
 
 #include <algorithm>
+#include <vector>
 #include <io/uri.hpp>
 
 using namespace Arabica::io;
@@ -15,6 +16,7 @@ namespace {
 
   const std::string COLON = ":";
   const char FORWARD_SLASH = '/';
+  const std::string PATH_DELIMITERS = "/?#";
   
   const std::string& wellKnownPort(const std::string& scheme)
   {
@@ -31,7 +33,8 @@ namespace {
 } // namespace 
 
 URI::URI(const std::string& uri) :
-  is_absolute_(false)
+  is_absolute_(false),
+  has_authority_(false)
 {
   parse(uri);
 } // URI
@@ -41,7 +44,8 @@ URI::URI(const URI& base, const std::string& relativeUrl) :
   host_(base.host_),
   path_(base.path_),
   port_(base.port_),
-  is_absolute_(base.is_absolute_)
+  is_absolute_(base.is_absolute_),
+  has_authority_(base.has_authority_)
 {
   if(!relativeUrl.empty())
   {
@@ -62,7 +66,7 @@ std::string URI::as_string() const
   std::string str;
   if(!scheme_.empty())
     str.append(scheme_).append(COLON);
-  if(is_absolute_)
+  if(is_absolute_ || has_authority_)
     str.append("//");
   if(!host_.empty())
   {
@@ -74,6 +78,73 @@ std::string URI::as_string() const
   return str;
 } // as_string
 
+// path?query#fragment, which are all kept in path_
+static void splitPath(const std::string& all, std::string& path, std::string& query, std::string& fragment)
+{
+  size_t hash = all.find('#');
+  if(hash != std::string::npos)
+    fragment = all.substr(hash);
+  size_t question = all.find('?');
+  if(question < hash)
+    query = all.substr(question, (hash == std::string::npos) ? hash : hash - question);
+  path = all.substr(0, std::min(question, hash));
+} // splitPath
+
+static bool isScheme(const std::string& uri, size_t length)
+{
+  if(length == 0 || length == std::string::npos)
+    return false;
+  for(size_t i = 0; i != length; ++i)
+  {
+    const char c = uri[i];
+    const bool letter = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
+    const bool other = (c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.';
+    if(!letter && !(other && i != 0))
+      return false;
+  } // for ...
+  return true;
+} // isScheme
+
+// take . and .. out of a path. There is nothing above /, but leading ..s stay
+// where the path isn't absolute.
+static void removeDotSegments(std::string& path)
+{
+  const bool absolute = !path.empty() && path[0] == FORWARD_SLASH;
+  std::vector<std::string> segments;
+
+  size_t from = absolute ? 1 : 0;
+  while(from <= path.length())
+  {
+    const size_t slash = std::min(path.find(FORWARD_SLASH, from), path.length());
+    const std::string segment = path.substr(from, slash - from);
+    const bool last = (slash == path.length());
+
+    if(segment == "..")
+    {
+      if(!segments.empty() && segments.back() != "..")
+        segments.pop_back();
+      else if(!absolute)
+        segments.push_back(segment);
+    } 
+    else if(segment != ".")
+      segments.push_back(segment);
+
+    if(last && (segment == "." || segment == "..") && (absolute || !segments.empty()))
+      segments.push_back(std::string());
+
+    from = slash + 1;
+  } // while ...
+
+  std::string result(absolute ? 1 : 0, FORWARD_SLASH);
+  for(size_t s = 0; s != segments.size(); ++s)
+  {
+    if(s != 0)
+      result += FORWARD_SLASH;
+    result += segments[s];
+  } // for ...
+  path.swap(result);
+} // removeDotSegments
+
 void fixSlashes(std::string& path)
 {
   for(size_t i = path.find('\\'); i != std::string::npos; i = path.find('\\', i))
@@ -84,10 +155,15 @@ void URI::parse(const std::string& uri)
 {
   parse_uri(uri);
 
+  set_absolute();
+} // parse
+
+void URI::set_absolute()
+{
   is_absolute_ = (!scheme_.empty() && !host_.empty()) ||
     (((scheme_ == SCHEME_FILE) && (!path_.empty())) && 
      ((path_[0] == FORWARD_SLASH) || (path_[1] == ':')));
-} // parse
+} // set_absolute
 
 void URI::parse_uri(const std::string& uri)
 {
@@ -95,12 +171,6 @@ void URI::parse_uri(const std::string& uri)
   // but that would put a Boost Spirit dependence right in the core, which I'm not prepared to do at the moment
 
   size_t d = uri.find_first_of(COLON);
-  if(d == std::string::npos)
-  {
-    path_ = uri;
-    fixSlashes(path_);
-    return;
-  } // if ...
 
   if(d == 1) 
   {
@@ -111,39 +181,42 @@ void URI::parse_uri(const std::string& uri)
     return;
   } // if ...
 
-  scheme_ = uri.substr(0, d);
-
-  std::string::const_iterator u = uri.begin() + d;
+  std::string::const_iterator u = uri.begin();
   std::string::const_iterator ue = uri.end();
 
-  ++u;
-  if(*u == FORWARD_SLASH && *(u+1) == FORWARD_SLASH)
+  if(isScheme(uri, d))
   {
-    u += 2;
-    u = parseAuthority(u, ue);
+    scheme_ = uri.substr(0, d);
+    u += d + 1;
   } // if ...
 
+  if(ue - u >= 2 && *u == FORWARD_SLASH && *(u+1) == FORWARD_SLASH)
+    u = parseAuthority(u + 2, ue);
+
   path_.append(u, ue);
+  if(d == std::string::npos)
+    fixSlashes(path_);
 } // parse
 
 std::string::const_iterator URI::parseAuthority(const std::string::const_iterator& u, 
 						const std::string::const_iterator& ue)
 {
-  std::string::const_iterator slash = std::find(u, ue, FORWARD_SLASH);
-  if(slash == ue)
-  {
-    // ah, this is easy
-    host_.append(u, ue);
-    return ue;
-  } // if(slash == we)
+  has_authority_ = true;
 
-  std::string::const_iterator colon = std::find(u, slash, ':');
-  host_.append(u, colon);
+  std::string::const_iterator end = std::find_first_of(u, ue, PATH_DELIMITERS.begin(), PATH_DELIMITERS.end());
+  const std::string authority(u, end);
 
-  if(colon != slash)
-    port_.append(colon+1, slash);
+  // a colon in the user information or in an IPv6 address doesn't introduce the port 
+  size_t colon = authority.rfind(':');
+  size_t before = authority.find_last_of("@]");
+  if(colon != std::string::npos && before != std::string::npos && colon < before)
+    colon = std::string::npos;
 
-  return slash;
+  host_ = authority.substr(0, colon);
+  if(colon != std::string::npos)
+    port_ = authority.substr(colon+1);
+
+  return end;
 } // parseAuthority
 
 bool compatible_schemes(const std::string& scheme,
@@ -158,40 +231,53 @@ bool compatible_schemes(const std::string& scheme,
 
 void URI::absolutise(URI& relative)
 {
+  std::string path, query, fragment;
+  splitPath(relative.path_, path, query, fragment);
+
   if((relative.is_absolute()) || 
      !compatible_schemes(scheme_, relative.scheme()))
   {
+    removeDotSegments(path);
     swap(relative);
+    path_ = path + query + fragment;
     return;
   }
 
-  if(relative.path_[0] == FORWARD_SLASH)
-    path_ = relative.path_;
-  else 
-    combinePath(relative.path_);
-} // absolutise
-
-void URI::combinePath(const std::string& relPath)
-{
-  if(*(path_.rbegin()) != FORWARD_SLASH)
-    path_.erase(path_.rfind(FORWARD_SLASH)+1);
+  if(relative.has_authority_)
+  {
+    removeDotSegments(path);
+    host_ = relative.host_;
+    port_ = relative.port_;
+    has_authority_ = true;
+    path_ = path + query + fragment;
+    set_absolute();
+    return;
+  }
 
-  std::string::size_type from = path_.length() - 1;
-  path_.append(relPath);
+  std::string basePath, baseQuery, baseFragment;
+  splitPath(path_, basePath, baseQuery, baseFragment);
 
-  size_t dots = path_.find("/../", from);
-  while(dots != std::string::npos)
+  if(path.empty())
   {
-    size_t preceding_slash = (dots > 0) ? path_.rfind(FORWARD_SLASH, dots-1) : 0;
-    path_.erase(preceding_slash, dots+3-preceding_slash);
-    dots = path_.find("/../", preceding_slash);
-  } // while
-
-  size_t dot = path_.find("/./");
-  while(dot != std::string::npos)
+    path = basePath;
+    if(query.empty())
+      query = baseQuery;
+  }
+  else 
   {
-    path_.erase(dot, 2);
-    dot = path_.find("/./", dot);
+    if(path[0] != FORWARD_SLASH)
+      path = combinePath(basePath, path);
+    removeDotSegments(path);
   }
+
+  path_ = path + query + fragment;
+  set_absolute();
+} // absolutise
+
+std::string URI::combinePath(const std::string& basePath, const std::string& relPath) const
+{
+  if(basePath.empty() && (is_absolute_ || has_authority_))
+    return FORWARD_SLASH + relPath;
+  return basePath.substr(0, basePath.rfind(FORWARD_SLASH)+1) + relPath;
 } // combinePath
 
-- 
2.43.0


From 8402b5ae01f021b9e58f6ae6fcfd3a4233608bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:20 +0000
Subject: [PATCH 019/106] fix: NamespaceSupport kept overridden declarations,
 and reported hidden and default prefixes

---
 include/SAX/helpers/NamespaceSupport.hpp | 43 +++++++++++++-----------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/include/SAX/helpers/NamespaceSupport.hpp b/include/SAX/helpers/NamespaceSupport.hpp
index 4f9998c..b114164 100644
--- a/include/SAX/helpers/NamespaceSupport.hpp
+++ b/include/SAX/helpers/NamespaceSupport.hpp
@@ -178,7 +178,7 @@ class NamespaceSupport
       if((prefix == nsc_.xml) || (prefix == nsc_.xmlns))
         return false;
 
-      contexts_.back().insert(std::make_pair(prefix, uri));
+      contexts_.back()[prefix] = uri;
       return true;
     } // declarePrefix
 
@@ -274,12 +274,10 @@ class NamespaceSupport
      */
     string_type getPrefix(const string_type& uri) const
     {
-      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
-      {
-        for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(u->second == uri)
-            return u->first;
-      } // for ...
+      const stringMapT inScope = mappingsInScope();
+      for(typename stringMapT::const_iterator u = inScope.begin(); u != inScope.end(); ++u)
+        if(u->second == uri && !string_adaptor::empty(u->first))
+          return u->first;
 
       return string_type();
     } // getPrefix
@@ -301,12 +299,10 @@ class NamespaceSupport
     {
       stringListT prefixes;
 
-      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
-      {
-        for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(!string_adaptor::empty(u->first))
-            prefixes.push_back(u->first);
-      } // for ...
+      const stringMapT inScope = mappingsInScope();
+      for(typename stringMapT::const_iterator u = inScope.begin(); u != inScope.end(); ++u)
+        if(!string_adaptor::empty(u->first))
+          prefixes.push_back(u->first);
        
       return prefixes;
     } // getPrefixes
@@ -336,12 +332,10 @@ class NamespaceSupport
     {
       stringListT prefixes;
 
-      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
-      {
-        for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(u->second == uri)
-            prefixes.push_back(u->first);
-      } // for ...
+      const stringMapT inScope = mappingsInScope();
+      for(typename stringMapT::const_iterator u = inScope.begin(); u != inScope.end(); ++u)
+        if(u->second == uri && !string_adaptor::empty(u->first))
+          prefixes.push_back(u->first);
 
       return prefixes;
     } // getPrefixes
@@ -369,10 +363,19 @@ class NamespaceSupport
     } // getDeclaredPrefixes
 
   private:
-    typedef typename std::multimap<string_type, string_type> stringMapT;
+    typedef typename std::map<string_type, string_type> stringMapT;
     typedef stringMapT Context;
     typedef typename std::vector<Context> contextListT;
 
+    // inner declarations hide outer ones
+    stringMapT mappingsInScope() const
+    {
+      stringMapT inScope;
+      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
+        inScope.insert(i->begin(), i->end());
+      return inScope;
+    } // mappingsInScope
+
     // member variables
     contextListT contexts_;
 
-- 
2.43.0


From ce3bce9de3a30da3598c88738a77b4fac8a23dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 020/106] fix: XPath mod truncated its operands to integers,
 and crashed on a zero divisor

---
 include/XPath/impl/xpath_arithmetic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_arithmetic.hpp b/include/XPath/impl/xpath_arithmetic.hpp
index 3d4d0f3..8824c47 100644
--- a/include/XPath/impl/xpath_arithmetic.hpp
+++ b/include/XPath/impl/xpath_arithmetic.hpp
@@ -1,6 +1,7 @@
 #ifndef ARABICA_XPATHIC_XPATH_ARITHMETIC_HPP
 #define ARABICA_XPATHIC_XPATH_ARITHMETIC_HPP
 
+#include <cmath>
 #include <functional>
 #include "xpath_value.hpp"
 #include "xpath_expression_impl.hpp"
@@ -68,7 +69,7 @@ struct NaN_aware_modulus
 	{	// apply operator% to operands 
     if(isNaN(lhs) || isNaN(rhs)) 
       return NaN; 
-    return (static_cast<long>(lhs) % static_cast<long>(rhs)); 
+    return std::fmod(lhs, rhs); 
 	}
 }; // NaN_aware_modulus
 
-- 
2.43.0


From fc54ce889f0260292f2f5da5533376f8451a1e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 021/106] fix: XPath round() got -0.5, values just below a
 half, and large odd integers wrong

---
 include/XPath/impl/xpath_object.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 7727a0b..d1265be 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -408,10 +408,13 @@ inline double roundNumber(double value)
 { 
   if(!(isNaN(value) || isInfinite(value) || (std::fabs(value) == 0)))
   {
-    if((value < 0.0) && (value > -0.5))
+    if((value < 0.0) && (value >= -0.5))
       value = -0.0;
     else
-      value = std::floor(value + 0.5);
+    {
+      double lower = std::floor(value);
+      value = (value - lower >= 0.5) ? lower + 1.0 : lower;
+    } // if ...
   } // if ...
   return value;
 } // roundNumber
-- 
2.43.0


From 497a66dfc682120cb8d5465542f7f98f30599abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 022/106] fix: XPath substring() threw past the end of the
 string, and answered for NaN starts

---
 include/XPath/impl/xpath_function.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_function.hpp b/include/XPath/impl/xpath_function.hpp
index 7c261d9..fc43d5a 100644
--- a/include/XPath/impl/xpath_function.hpp
+++ b/include/XPath/impl/xpath_function.hpp
@@ -472,9 +472,9 @@ protected:
       return string_adaptor::empty_string();
 
     double startAt = roundNumber(baseT::argAsNumber(1, context, executionContext)) - 1;
-    double endAt = roundNumber((baseT::argCount() == 3 ? baseT::argAsNumber(2, context, executionContext) : Infinity)) + startAt;
+    double endAt = (baseT::argCount() == 3) ? roundNumber(baseT::argAsNumber(2, context, executionContext)) + startAt : Infinity;
 
-    if((endAt < 0) || (endAt < startAt) || (isNaN(endAt)))
+    if((endAt < 0) || (endAt < startAt) || (isNaN(startAt)) || (isNaN(endAt)) || (startAt >= string_adaptor::length(value)))
       return string_adaptor::empty_string();
 
     if(startAt < 0)
-- 
2.43.0


From 86bcb64bb799544ffc7b676e22f4acdfe04e676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 023/106] fix: XPath translate() wrote undefined characters in
 place of those it should leave alone

---
 include/XPath/impl/xpath_function.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_function.hpp b/include/XPath/impl/xpath_function.hpp
index fc43d5a..48a7e0e 100644
--- a/include/XPath/impl/xpath_function.hpp
+++ b/include/XPath/impl/xpath_function.hpp
@@ -543,7 +543,7 @@ protected:
     {
       size_t r = string_adaptor::find(from, *i);
       if(r == string_adaptor::npos())
-        ++p;
+        *p++ = *i;
       else if(r < string_adaptor::length(to))
         *p++ = *(string_adaptor::begin(to) + r);
     } // for ...
-- 
2.43.0


From b65678bb9ff641017ca960df8402891d370cb070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:30 +0000
Subject: [PATCH 024/106] fix: XPath string() of a number used exponents,
 excess digits and a minus sign on zero

---
 include/XPath/impl/xpath_object.hpp | 45 +++++++++++++++++++++++++++++
 include/XPath/impl/xpath_value.hpp  |  2 +-
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index d1265be..3c84682 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -4,6 +4,10 @@
 #include <string>
 #include <vector>
 #include <utility>
+#include <sstream>
+#include <iomanip>
+#include <limits>
+#include <locale>
 #include <DOM/Node.hpp>
 #include <DOM/Attr.hpp>
 #include <boost/shared_ptr.hpp>
@@ -419,6 +423,47 @@ inline double roundNumber(double value)
   return value;
 } // roundNumber
 
+// a finite number as XPath writes it - in decimal form, never with an exponent, 
+// with just enough digits to distinguish it from every other number
+inline std::string numberAsString(double value)
+{
+  if(value == 0.0)
+    return "0";
+
+  const double magnitude = std::fabs(value);
+  std::string digits;
+  int point = 0;
+  for(int precision = 0; precision < std::numeric_limits<double>::max_digits10; ++precision)
+  {
+    std::ostringstream os;
+    os.imbue(std::locale::classic());
+    os << std::scientific << std::setprecision(precision) << magnitude;
+    
+    const std::string text = os.str();
+    const std::string::size_type e = text.find('e');
+    digits = text.substr(0, e);
+    if(precision != 0)
+      digits.erase(1, 1);
+    point = boost::lexical_cast<int>(text.substr(e+1)) + 1;
+
+    std::istringstream is(text);
+    is.imbue(std::locale::classic());
+    double reread = 0.0;
+    if((is >> reread) && (reread == magnitude))
+      break;
+  } // for ...
+  digits.erase(digits.find_last_not_of('0') + 1);
+
+  if(point <= 0)
+    digits = "0." + std::string(-point, '0') + digits;
+  else if(digits.length() <= static_cast<std::string::size_type>(point))
+    digits.append(point - digits.length(), '0');
+  else
+    digits.insert(point, 1, '.');
+
+  return (value < 0.0) ? "-" + digits : digits;
+} // numberAsString
+
 template<class string_type, class string_adaptor>
 double stringAsNumber(const string_type& str)
 {
diff --git a/include/XPath/impl/xpath_value.hpp b/include/XPath/impl/xpath_value.hpp
index 27eff4f..806f29a 100644
--- a/include/XPath/impl/xpath_value.hpp
+++ b/include/XPath/impl/xpath_value.hpp
@@ -112,7 +112,7 @@ public:
       return string_adaptor::construct_from_utf8("Infinity");
     if(isNegativeInfinity(value_))
       return string_adaptor::construct_from_utf8("-Infinity");
-    return string_adaptor::construct_from_utf8(boost::lexical_cast<std::string>(value_).c_str());
+    return string_adaptor::construct_from_utf8(impl::numberAsString(value_).c_str());
   } // asString
   virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const { static NodeSet<string_type, string_adaptor> empty; return empty; }
 
-- 
2.43.0


From dbb64fc7175b9e74c7fba3b6c28ec9c6f7559f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:30 +0000
Subject: [PATCH 025/106] fix: XPath number() accepted exponents and names of
 infinity

---
 include/XPath/impl/xpath_object.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 3c84682..2870ae2 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -1,6 +1,7 @@
 #ifndef ARABICA_XPATHIC_XPATH_OBJECT_H
 #define ARABICA_XPATHIC_XPATH_OBJECT_H
 
+#include <algorithm>
 #include <string>
 #include <vector>
 #include <utility>
@@ -464,15 +465,28 @@ inline std::string numberAsString(double value)
   return (value < 0.0) ? "-" + digits : digits;
 } // numberAsString
 
+// '-'? (Digits ('.' Digits?)? | '.' Digits)
+// so '+1.5', '1e3', 'inf' and '0x10' are not numbers according to the XPath spec, 
+// counter intuitive as that is
+inline bool isXPathNumber(const std::string& str)
+{
+  static const std::string DIGITS = "0123456789";
+
+  const std::string::size_type start = (!str.empty() && str[0] == '-') ? 1 : 0;
+  const std::string::size_type point = std::min(str.find_first_not_of(DIGITS, start), str.length());
+  if(point == str.length())
+    return point != start;
+  if(str[point] != '.' || str.find_first_not_of(DIGITS, point+1) != std::string::npos)
+    return false;
+  return str.length() - start > 1;
+} // isXPathNumber
+
 template<class string_type, class string_adaptor>
 double stringAsNumber(const string_type& str)
 {
   try {
-    static string_type PLUS = string_adaptor::construct_from_utf8("+");
-
     string_type n_str = Arabica::text::normalize_whitespace<string_type, string_adaptor>(str);
-    // '+1.5' is not a number according to XPath spec, counter intuitive as that is
-    if(string_adaptor::find(n_str, PLUS) == 0)
+    if(!isXPathNumber(string_adaptor::asStdString(n_str)))
       return NaN;
     
     return boost::lexical_cast<double>(n_str);
-- 
2.43.0


From 078942fb6cbd2c3373b2daffc2ba84955ac0a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 026/106] fix: XPath < and > read past the end of an empty
 node-set, and compared a node-set with a boolean node by node

---
 include/XPath/impl/xpath_object.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 2870ae2..2be48ba 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -728,12 +728,17 @@ double maxValue(const NodeSet<string_type, string_adaptor>& ns)
 template<class Op, class string_type, class string_adaptor>
 bool compareNodeSets(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
+  if(lhs.asNodeSet().empty() || rhs.asNodeSet().empty())
+    return false;
   return Op()(minValue<string_type, string_adaptor>(lhs.asNodeSet()), maxValue<string_type, string_adaptor>(rhs.asNodeSet()));
 } // compareNodeSets
 
 template<class Op, class string_type, class string_adaptor>
 bool compareNodeSetWith(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
+  if(rhs.type() == BOOL)
+    return Op()(lhs.asBool() ? 1.0 : 0.0, rhs.asNumber());
+
   const NodeSet<string_type, string_adaptor>& lns = lhs.asNodeSet();
   return std::find_if(lns.begin(), 
                       lns.end(), 
-- 
2.43.0


From 0e013413d4654857c2f97e21e1c526dbd031752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 027/106] fix: nodes from two document fragments had no
 consistent order

---
 include/XPath/impl/xpath_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 2be48ba..9688f6f 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -109,7 +109,7 @@ int resolve_different_subtrees(const DOM::Node<string_type, string_adaptor>& lhs
     return 1;
 
   // otherwise, sort the frags
-  return (lp.underlying_impl() < lp.underlying_impl()) ? -1 : 1;
+  return (lp.underlying_impl() < rp.underlying_impl()) ? -1 : 1;
 } // resolve_different_subtrees
 
 template<class string_type, class string_adaptor>
-- 
2.43.0


From a23ba858f735ae10556b0c2fecdce55057754e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 028/106] fix: an element's thousandth attribute came after its
 children in document order

---
 include/XPath/impl/xpath_object.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 9688f6f..45217e3 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -70,12 +70,13 @@ unsigned int node_child_position(const DOM::Node<string_type, string_adaptor>& n
       return node_attribute_index(static_cast<DOM::Attr<string_type, string_adaptor> >(node));
     default:
     {
-      unsigned int pos = 0;
+      // leave room for the attributes, however many, to go before the children
+      unsigned int pos = 0x80000000u;
       DOM::Node<string_type, string_adaptor> n = node;
       do
       {
         n = n.getPreviousSibling();
-        pos += 1000;
+        ++pos;
       } while(n != 0);
       return pos;
     } // default
@@ -159,7 +160,7 @@ int compareNodes(const DOM::Node<string_type, string_adaptor>& lhs,
   while(l != le && r != re)
   {
     if(*l != *r)
-      return *l - *r;
+      return (*l < *r) ? -1 : 1;
 
     ++l;
     ++r;
-- 
2.43.0


From a0b45fc99dddbdeb4c08dbbc07de99685e45a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:03 +0000
Subject: [PATCH 029/106] fix: the XPath child axis of an attribute was not
 empty

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index a654f47..6663a7f 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -324,7 +324,7 @@ public:
 
   ChildAxisWalker(const RawNodeT context) : AxisWalker<string_type, string_adaptor>(true)
   {
-    if(context != 0)
+    if((context != 0) && (context->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE))
       BaseT::set(context->getFirstChild());
   } // ChildAxisWalker
 
-- 
2.43.0


From 54091d6bb56daa8ec0ad30288a60f89956bcb6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:03 +0000
Subject: [PATCH 030/106] fix: the document type declaration appeared as a node
 on XPath axes

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index 6663a7f..e20da98 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -98,6 +98,9 @@ private:
   } // advance
   void grab()
   {
+    // the document type declaration is not part of the XPath data model
+    while((walker_->get() != 0) && (walker_->get()->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE))
+      walker_->advance();
     node_.set_underlying_impl(walker_->get());
   } // grab
 
-- 
2.43.0


From d7d97bfc4d85139196e3d723fb472dae0781e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:03 +0000
Subject: [PATCH 031/106] fix: the XPath preceding axis held the last, not the
 first, of a run of text nodes

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index e20da98..51aed10 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -633,8 +633,8 @@ private:
       return context;
 
     RawNodeT c = context->getFirstChild();
-    while(c->getNextSibling() != 0)
-      c = c->getNextSibling();
+    for(RawNodeT next = BaseT::findNextSibling(c); next != 0; next = BaseT::findNextSibling(c))
+      c = next;
 
     return getLastDescendant(c);
   } // getLastDescendant
-- 
2.43.0


From cfc2bfc296d98719cb50beb2e9a74b8710bfe678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:03 +0000
Subject: [PATCH 032/106] fix: the XPath following axis ran off the top of a
 detached tree

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index 51aed10..6710372 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -151,7 +151,7 @@ protected:
       return next;
             
     RawNodeT parent = context->getParentNode();
-    while(parent != origin && next == 0)
+    while(parent != 0 && parent != origin && next == 0)
     {
       next = parent->getNextSibling();
       parent = parent->getParentNode();
@@ -450,7 +450,7 @@ private:
       return next;
           
     RawNodeT parent = context->getParentNode();
-    while(parent != context->getOwnerDocument() && next == 0)
+    while(parent != 0 && parent != context->getOwnerDocument() && next == 0)
     {
       next = parent->getNextSibling();
       parent = parent->getParentNode();
-- 
2.43.0


From 1232c52b34fd09c2f668adee7fbe7b08323e71e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 033/106] fix: the XPath following axis of a namespace node
 missed the element's descendants

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index 6710372..11bf1be 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -444,6 +444,14 @@ private:
       return firstFollowing(owner);
     } // if attribute
 
+    if(context->getNodeType() == NAMESPACE_NODE_TYPE)
+    {
+      RawNodeT owner = context->getParentNode();
+      if(owner->hasChildNodes())
+        return owner->getFirstChild();
+      return firstFollowing(owner);
+    } // if namespace
+
     RawNodeT next = BaseT::findNextSibling(context);
 
     if(next != 0)
-- 
2.43.0


From c6b6d8dcf8b61d4488be191d647b6be3f0b7bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 034/106] fix: the XPath namespace axis listed hidden and
 undeclared namespaces, and could not be copied

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 37 +++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index 11bf1be..9358b4f 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -1,6 +1,8 @@
 #ifndef ARABICA_XPATHIC_XPATH_AXIS_ENUMERATOR_H
 #define ARABICA_XPATHIC_XPATH_AXIS_ENUMERATOR_H
 
+#include <set>
+#include <vector>
 #include <DOM/Node.hpp>
 #include <DOM/Document.hpp>
 #include <DOM/NamedNodeMap.hpp>
@@ -507,20 +509,22 @@ public:
     xmlns_prefix_(string_adaptor::construct_from_utf8("xmlns")),
     index_(0)
   {
+    // only elements have namespace nodes, one for each prefix in scope
     RawNodeT current = context;
-    if(current->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
-      push_back(context, 
-                string_adaptor::construct_from_utf8("xml"), 
-                string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace"));
-    while(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+    std::set<string_type> declared;
+    if(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+      declare(context, declared,
+              string_adaptor::construct_from_utf8("xml"), 
+              string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace"));
+    while((current != 0) && (current->getNodeType() == DOM::Node_base::ELEMENT_NODE))
     {
       for(unsigned int a = 0, ae = current->getAttributes()->getLength(); a != ae; ++a)
       {
         RawNodeT attr = current->getAttributes()->item(a);
         if(attr->getPrefix() == xmlns_prefix_)
-          push_back(context, attr->getLocalName(), attr->getNodeValue());
+          declare(context, declared, attr->getLocalName(), attr->getNodeValue());
         if(attr->getNodeName() == xmlns_prefix_)
-          push_back(context, string_adaptor::empty_string(), attr->getNodeValue());
+          declare(context, declared, string_adaptor::empty_string(), attr->getNodeValue());
       } // for ...
       current = current->getParentNode();
     } // while
@@ -536,13 +540,20 @@ public:
 
   virtual void advance()
   {
-    if(index_ != list_.size())
+    if(BaseT::get() != 0)
       BaseT::set(list_[++index_]);
   } // advance
   
   virtual BaseT* clone() const { return new NamespaceAxisWalker(*this); }
 
 private:
+  void declare(RawNodeT context, std::set<string_type>& declared, const string_type& prefix, const string_type& uri)
+  {
+    // inner declarations hide outer ones, and the empty uri takes a declaration away
+    if(declared.insert(prefix).second && !string_adaptor::empty(uri))
+      push_back(context, prefix, uri);
+  } // declare
+
   void push_back(RawNodeT context, const string_type& prefix, const string_type& uri)
   {
     RawNodeT node = new NamespaceNodeImpl<string_type, string_adaptor>(context, prefix, uri);
@@ -550,7 +561,15 @@ private:
     list_.push_back(node);
   } // push_back
 
-  NamespaceAxisWalker(const NamespaceAxisWalker& rhs) : BaseT(rhs) { }
+  NamespaceAxisWalker(const NamespaceAxisWalker& rhs) : BaseT(rhs),
+    list_(rhs.list_),
+    xmlns_prefix_(rhs.xmlns_prefix_),
+    index_(rhs.index_)
+  {
+    for(int i = 0; list_[i] != 0; ++i)
+      list_[i]->addRef();
+  } // NamespaceAxisWalker
+
   std::vector<RawNodeT> list_;
   const string_type xmlns_prefix_;
   unsigned int index_;
-- 
2.43.0


From e253d2bbbaf2779ea4d6308b823e6a4b3741f426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 035/106] fix: a node-set could hold the same namespace node
 many times

---
 include/XPath/impl/xpath_object.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 45217e3..e85964b 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -170,7 +170,14 @@ int compareNodes(const DOM::Node<string_type, string_adaptor>& lhs,
     return 1;
   if(r != re)
     return -1;
-  return 0;
+
+  // namespace nodes are made on demand, so are known by their element and prefix
+  if(lhs.getNodeName() == rhs.getNodeName())
+    return 0;
+  const string_type xml = string_adaptor::construct_from_utf8("xml");
+  if((lhs.getNodeName() == xml) || (rhs.getNodeName() == xml))
+    return (lhs.getNodeName() == xml) ? -1 : 1;
+  return (lhs.getNodeName() < rhs.getNodeName()) ? -1 : 1;
 } // compareNodes
 
 template<class string_type, class string_adaptor>
@@ -180,6 +187,13 @@ bool nodes_less_than(const DOM::Node<string_type, string_adaptor>& n1,
   return compareNodes(n1, n2) < 0; 
 } // nodes_less_than
 
+template<class string_type, class string_adaptor>
+bool nodes_same(const DOM::Node<string_type, string_adaptor>& n1, 
+                const DOM::Node<string_type, string_adaptor>& n2) 
+{ 
+  return compareNodes(n1, n2) == 0; 
+} // nodes_same
+
 } // namespace impl
 
 ///////////////////////////////////////////////////////////
@@ -286,7 +300,7 @@ public:
     else
       std::sort(nodes_.rbegin(), nodes_.rend(), impl::nodes_less_than<string_type, string_adaptor>);
 
-    nodes_.erase(std::unique(nodes_.begin(), nodes_.end()), nodes_.end());
+    nodes_.erase(std::unique(nodes_.begin(), nodes_.end(), impl::nodes_same<string_type, string_adaptor>), nodes_.end());
     sorted_ = true;
   } // sort
 
-- 
2.43.0


From 7c83034f83bc8f92bac8900a79321b72b8808e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:19 +0000
Subject: [PATCH 036/106] fix: XPath name tests accepted namespace nodes on
 axes other than namespace

---
 include/XPath/impl/xpath_step.hpp | 33 ++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/include/XPath/impl/xpath_step.hpp b/include/XPath/impl/xpath_step.hpp
index 3d35a7a..ac7bb22 100644
--- a/include/XPath/impl/xpath_step.hpp
+++ b/include/XPath/impl/xpath_step.hpp
@@ -81,6 +81,28 @@ private:
   friend class MatchExpr<string_type, string_adaptor>;
 }; // StepExpression
 
+// a name test is true only of nodes of the axis's principal node type
+template<class string_type, class string_adaptor>
+class PrincipalNodeTest : public NodeTest<string_type, string_adaptor>
+{
+public:
+  PrincipalNodeTest(Axis axis, NodeTest<string_type, string_adaptor>* test) : axis_(axis), test_(test) { }
+  virtual ~PrincipalNodeTest() { delete test_; }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new PrincipalNodeTest(axis_, test_->clone()); }
+
+  virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
+  {
+    return ((node.getNodeType() == NAMESPACE_NODE_TYPE) == (axis_ == NAMESPACE)) && (*test_)(node);
+  } // test
+
+private:
+  PrincipalNodeTest(const PrincipalNodeTest&);
+  PrincipalNodeTest& operator=(const PrincipalNodeTest&);
+
+  const Axis axis_;
+  NodeTest<string_type, string_adaptor>* const test_;
+}; // class PrincipalNodeTest
+
 template<class string_type, class string_adaptor>
 class TestStepExpression : public StepExpression<string_type, string_adaptor>
 {
@@ -352,6 +374,11 @@ private:
     return preds;
   } // createPredicates
 
+  static NodeTest<string_type, string_adaptor>* principalTest(Axis axis, NodeTest<string_type, string_adaptor>* test)
+  {
+    return new PrincipalNodeTest<string_type, string_adaptor>(axis, test);
+  } // principalTest
+
   static NodeTest<string_type, string_adaptor>* getTest(typename types<string_adaptor>::node_iter_t& node, 
                                         typename types<string_adaptor>::node_iter_t const& end, 
                                         Axis axis, 
@@ -383,7 +410,7 @@ private:
               return new FailNodeTest<string_type, string_adaptor>();
             return new AttributeQNameNodeTest<string_type, string_adaptor>(uri, name);
           }
-          return new QNameNodeTest<string_type, string_adaptor>(uri, name);
+          return principalTest(axis, new QNameNodeTest<string_type, string_adaptor>(uri, name));
         } //case QName_id
       
       case impl::NCName_id:
@@ -396,7 +423,7 @@ private:
               return new FailNodeTest<string_type, string_adaptor>();
             return new AttributeNameNodeTest<string_type, string_adaptor>(name);
           }
-          return new NameNodeTest<string_type, string_adaptor>(name);
+          return principalTest(axis, new NameNodeTest<string_type, string_adaptor>(name));
         } // case NameNodeTest
 
       case impl::Comment_id:
@@ -445,7 +472,7 @@ private:
           ++node;
           if(axis == ATTRIBUTE)
             return new AttributeNodeTest<string_type, string_adaptor>();
-          return new StarNodeTest<string_type, string_adaptor>();
+          return principalTest(axis, new StarNodeTest<string_type, string_adaptor>());
         } // case AnyName_id:
 
       case impl::NameTest_id:
-- 
2.43.0


From 86d39c609e81b1044e535aec20222d2a326a7754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:17 +0000
Subject: [PATCH 037/106] fix: XPath refused whitespace around . and .., and
 between minus signs

---
 include/XPath/impl/xpath_grammar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_grammar.hpp b/include/XPath/impl/xpath_grammar.hpp
index 1b42f10..5b8588f 100644
--- a/include/XPath/impl/xpath_grammar.hpp
+++ b/include/XPath/impl/xpath_grammar.hpp
@@ -75,7 +75,7 @@ struct xpath_grammar_definition
     AbbreviatedAbsoluteLocationPath = SlashSlash >> RelativeLocationPath;
     // [11] AbbreviatedRelativeLocationPath eliminated
     // [12], [13]
-    AbbreviatedStep = ParentSelect | SelfSelect;
+    AbbreviatedStep = discard_node_d[S] >> (ParentSelect | SelfSelect) >> discard_node_d[S];
     AbbreviatedAxisSpecifier = !ch_p('@');
 
     // [14], [15]
@@ -116,7 +116,7 @@ struct xpath_grammar_definition
     // [25], [26], [27]
     AdditiveExpr = MultiplicativeExpr >> *((PlusOperator | MinusOperator) >> MultiplicativeExpr);
     MultiplicativeExpr = UnaryExpr >> *((MultiplyOperator | DivOperator | ModOperator) >> UnaryExpr);
-    UnaryExpr = discard_node_d[S] >> *(UnaryMinusOperator) >> UnionExpr;
+    UnaryExpr = discard_node_d[S] >> *(UnaryMinusOperator >> discard_node_d[S]) >> UnionExpr;
 
     // [28] ExprToken not actually used
 
-- 
2.43.0


From 3a0658cfac7080076e3a336fbc805ae8cda1baa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:17 +0000
Subject: [PATCH 038/106] fix: the pattern a//b took a node for its own
 ancestor

---
 include/XPath/impl/xpath_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index 45e3319..cfb6bee 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -911,7 +911,7 @@ Axis getPatternAxis(typename impl::types<string_adaptor>::node_iter_t const& fro
   int id = impl::getNodeId<string_adaptor>(next);
 
   if(id == impl::SlashSlash_id)
-    return ANCESTOR_OR_SELF;
+    return ANCESTOR;
   if((id == impl::AbbreviatedAxisSpecifier_id) || (id == impl::Attribute_id))
     return static_cast<Axis>(-1);
 
-- 
2.43.0


From 949cd79596e68ffd2e52b0fe0ce5846030985e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:26 +0000
Subject: [PATCH 039/106] fix: default priorities of XSLT patterns ignored some
 predicates, and were upset by whitespace

---
 include/XPath/impl/xpath_parser.hpp | 37 +++++++++++------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index cfb6bee..348ee4a 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -837,6 +837,13 @@ double XPath<string_type, string_adaptor>::defaultPriority(typename impl::types<
   impl::skipWhitespace<string_adaptor>(i);
 
   long id = impl::getNodeId<string_adaptor>(i);
+  typename impl::types<string_adaptor>::node_iter_t next = i + 1;
+  while((next != end) && (impl::getNodeId<string_adaptor>(next) == impl::S_id))
+    ++next;
+  const long next_id = (next != end) ? impl::getNodeId<string_adaptor>(next) : impl::S_id;
+  if(next_id == impl::Predicate_id)
+    return 0.5;
+
   size_t child_count = 0;
   for(typename impl::types<string_adaptor>::node_iter_t c = i->children.begin(), ce = i->children.end(); c != ce; ++c)
     child_count += (impl::getNodeId<string_adaptor>(c) != impl::S_id);
@@ -846,37 +853,21 @@ double XPath<string_type, string_adaptor>::defaultPriority(typename impl::types<
     case impl::QName_id:
       return 0;
     case impl::NCName_id:
-      ++i;
-      if(i == end)
-        return 0;
-      impl::skipWhitespace<string_adaptor>(i);
-      if(impl::getNodeId<string_adaptor>(i) == impl::Predicate_id)
-        return 0.5;
-      if(impl::getNodeId<string_adaptor>(i) == impl::AnyName_id)
-        return -0.25;
-      return 0;
+      return (next_id == impl::AnyName_id) ? -0.25 : 0;
 
-    case impl::NodeTest_id:
-      {
-        typename impl::types<string_adaptor>::node_iter_t c = i->children.begin();
-        impl::skipWhitespace<string_adaptor>(c);
-        if(impl::getNodeId<string_adaptor>(c) == impl::ProcessingInstruction_id)
-          return 0;
-      }
+    case impl::ProcessingInstruction_id:
+      return (next_id == impl::Literal_id) ? 0 : -0.5;
 
     case impl::NodeMatchPattern_id:
+    case impl::Node_id:
     case impl::AnyName_id:
     case impl::Text_id:
     case impl::Comment_id:
-    case impl::ProcessingInstruction_id:
-      ++i;
-      if(i == end)
-        return -0.5;
-      impl::skipWhitespace<string_adaptor>(i);
-      if(impl::getNodeId<string_adaptor>(i) == impl::Predicate_id)
-        return 0.5;
       return -0.5;
 
+    case impl::NodeTest_id:
+      return defaultPriority(i->children.begin(), i->children.end());
+
     case impl::NameTest_id:
     case impl::StepPattern_id:
       //    case impl::LocationPathPattern_id:
-- 
2.43.0


From e6247f3d9bfc3db21395603e04b1af759331e41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 040/106] fix: patterns with a position among attributes, such
 as @*[1], never matched

---
 include/XPath/impl/xpath_match_rewrite.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/XPath/impl/xpath_match_rewrite.hpp b/include/XPath/impl/xpath_match_rewrite.hpp
index 6cf156c..18b6c6f 100755
--- a/include/XPath/impl/xpath_match_rewrite.hpp
+++ b/include/XPath/impl/xpath_match_rewrite.hpp
@@ -10,10 +10,11 @@ template<class string_type, class string_adaptor>
 class ReplacementExpression : public XPathExpression_impl<string_type, string_adaptor>
 {
 public:
-  ReplacementExpression(impl::NodeTest<string_type, string_adaptor>* test, 
+  ReplacementExpression(Axis axis,
+                        impl::NodeTest<string_type, string_adaptor>* test, 
                         const std::vector<XPathExpression_impl<string_type, string_adaptor>*>& preds) 
   {
-    test_ = new impl::TestStepExpression<string_type, string_adaptor>(CHILD, test, preds);
+    test_ = new impl::TestStepExpression<string_type, string_adaptor>(axis, test, preds);
   } // ReplacementExpression
 
   ~ReplacementExpression()
@@ -26,7 +27,7 @@ public:
   virtual XPathValue<string_type, string_adaptor> evaluate(const DOM::Node<string_type, string_adaptor>& context, 
                                                            const ExecutionContext<string_type, string_adaptor>& executionContext) const 
   {
-    DOM::Node<string_type, string_adaptor> parent = context.getParentNode();
+    DOM::Node<string_type, string_adaptor> parent = impl::node_parent_or_owner(context);
     NodeSet<string_type, string_adaptor> nodes = test_->evaluateAsNodeSet(parent, executionContext);
     bool found = false;
     for(typename NodeSet<string_type, string_adaptor>::const_iterator n = nodes.begin(), ne = nodes.end(); 
@@ -106,12 +107,18 @@ MatchExpr<string_type, string_adaptor>::MatchExpr(XPathExpression_impl<string_ty
     if(!step || step->has_predicates() == false)
       continue;
 
+    // each step is followed by a test that the node is an attribute, or that it isn't
+    typename StepList::const_iterator kind = s + 1;
+    const Step* kindStep = (kind != se) ? dynamic_cast<Step*>(*kind) : 0;
+    const bool isAttribute = kindStep && dynamic_cast<impl::AttributeNodeTest<string_type, string_adaptor>*>(kindStep->test_);
+    const Axis axis = isAttribute ? ATTRIBUTE : CHILD;
+
     Predicates& predicates = step->predicates_;
     typename Predicates::iterator positional = std::find_if(predicates.begin(), predicates.end(), impl::should_rewrite<string_type, string_adaptor>);
     while(positional != predicates.end())
     {
       Predicates folding(predicates.begin(), positional+1);
-      Expression* replacement_expression = new ReplacementExpression<string_type, string_adaptor>(step->test_->clone(), folding);
+      Expression* replacement_expression = new ReplacementExpression<string_type, string_adaptor>(axis, step->test_->clone(), folding);
       // replacement_expression now owns the leading predicates
       *positional = replacement_expression;
       // so remove the everyting upto the one we've just replaced
-- 
2.43.0


From f9469af6fd4e050c0e45643eba8b184844c6a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 041/106] fix: a numeric variable as a pattern's predicate was
 not taken as a position

---
 include/XPath/impl/xpath_match_rewrite.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_match_rewrite.hpp b/include/XPath/impl/xpath_match_rewrite.hpp
index 18b6c6f..e1b7789 100755
--- a/include/XPath/impl/xpath_match_rewrite.hpp
+++ b/include/XPath/impl/xpath_match_rewrite.hpp
@@ -78,7 +78,8 @@ namespace impl
   template<class string_type, class string_adaptor>
   bool should_rewrite(XPathExpression_impl<string_type, string_adaptor>* expr) 
   {
-    if(expr->type() == NUMBER)
+    // might be a number, and so a position
+    if((expr->type() == NUMBER) || (expr->type() == ANY))
       return true;
 
     PositionFnScanner<string_type, string_adaptor> scanner;
-- 
2.43.0


From 7fe4717c7796290a6fdf1a254cf9eb3072e27cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 042/106] fix: XSLT patterns refused or misread whitespace
 allowed by the XPath grammar

---
 include/XPath/impl/xpath_grammar.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/XPath/impl/xpath_grammar.hpp b/include/XPath/impl/xpath_grammar.hpp
index 5b8588f..f365ad2 100644
--- a/include/XPath/impl/xpath_grammar.hpp
+++ b/include/XPath/impl/xpath_grammar.hpp
@@ -357,8 +357,8 @@ struct xpath_grammar_match : public boost::spirit::grammar<xpath_grammar_match>
 
 
       // [3] IdKeyPattern ::= 'id' '(' Literal ')' | 'key' '(' Literal ',' Literal ')'
-      IdKeyPattern = (str_p("id") >> base::LeftBracket >> discard_node_d[base::S] >> base::Literal >> discard_node_d[base::S] >> base::RightBracket) |
-                     (str_p("key") >> base::LeftBracket >> discard_node_d[base::S] >> base::Literal >> discard_node_d[base::S] >> discard_node_d[ch_p(',')] >>discard_node_d[base::S] >>  base::Literal >> discard_node_d[base::S] >> base::RightBracket);
+      IdKeyPattern = (str_p("id") >> discard_node_d[base::S] >> base::LeftBracket >> discard_node_d[base::S] >> base::Literal >> discard_node_d[base::S] >> base::RightBracket) |
+                     (str_p("key") >> discard_node_d[base::S] >> base::LeftBracket >> discard_node_d[base::S] >> base::Literal >> discard_node_d[base::S] >> discard_node_d[ch_p(',')] >>discard_node_d[base::S] >>  base::Literal >> discard_node_d[base::S] >> base::RightBracket);
 
       // [4] RelativePathPattern ::= StepPattern
 	    //                            | RelativePathPattern '/' StepPattern
@@ -366,12 +366,12 @@ struct xpath_grammar_match : public boost::spirit::grammar<xpath_grammar_match>
       RelativePathPattern = StepPattern >> *((base::SlashSlash | base::Slash) >> StepPattern);
 
       // [5] StepPattern ::= ChildOrAttributeAxisSpecifier NodeTest Predicate*
-      StepPattern = ChildOrAttributeAxisSpecifier >> (NodeMatchPattern|base::NodeTest) >> *base::Predicate;
+      StepPattern = discard_node_d[base::S] >> ChildOrAttributeAxisSpecifier >> discard_node_d[base::S] >> (NodeMatchPattern >> discard_node_d[base::S] | base::NodeTest) >> *base::Predicate;
 
       // [6] ChildOrAttributeAxisSpecifier ::= AbbreviatedAxisSpecifier | ('child' | 'attribute') '::'
-      ChildOrAttributeAxisSpecifier = ((base::Child | base::Attribute) >> discard_node_d[str_p("::")]) | base::AbbreviatedAxisSpecifier;
+      ChildOrAttributeAxisSpecifier = ((base::Child | base::Attribute) >> discard_node_d[base::S] >> discard_node_d[str_p("::")]) | base::AbbreviatedAxisSpecifier;
 
-      NodeMatchPattern = str_p("node()");
+      NodeMatchPattern = token_node_d[str_p("node") >> *space_p >> ch_p('(') >> *space_p >> ch_p(')')];
     } // definition
 
     boost::spirit::rule<ScannerT, boost::spirit::parser_tag<Pattern_id> > const&
-- 
2.43.0


From 9c5062ded6a66474f5fab111bcc1f740291d8ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 043/106] fix: processing-instruction ('name') with whitespace
 in it ignored the name

---
 include/XPath/impl/xpath_grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_grammar.hpp b/include/XPath/impl/xpath_grammar.hpp
index f365ad2..03b7ccc 100644
--- a/include/XPath/impl/xpath_grammar.hpp
+++ b/include/XPath/impl/xpath_grammar.hpp
@@ -62,7 +62,7 @@ struct xpath_grammar_definition
 			          | Self;
 
     // [7]
-    NodeTest = S >>(ProcessingInstruction >> S >> discard_node_d[LeftBracket] >> S >> Literal >> S >> discard_node_d[RightBracket]
+    NodeTest = S >>(ProcessingInstruction >> discard_node_d[S] >> discard_node_d[LeftBracket] >> discard_node_d[S] >> Literal >> discard_node_d[S] >> discard_node_d[RightBracket]
                 | NodeType >> S >> discard_node_d[LeftBracket] >> S >> discard_node_d[RightBracket]
                 | NameTest )
                   >> S;
-- 
2.43.0


From cc319cf5d2cbe97aff605599c76edbb5e10ce6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:27 +0000
Subject: [PATCH 044/106] fix: a bracketed root at the head of a path, as in
 (/)/a, was dropped

---
 include/XPath/impl/xpath_parser.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index 348ee4a..1fedf88 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -748,7 +748,17 @@ impl::StepList<string_type, string_adaptor> XPath<string_type, string_adaptor>::
     {
       case impl::S_id:
       case impl::Slash_id:
-        ++c; // just drop it
+        {
+          typename impl::types<string_adaptor>::node_iter_t next = c+1;
+          while((next != end) && (impl::getNodeId<string_adaptor>(next) == impl::S_id))
+            ++next;
+          if((c == from) && (next != end) &&
+             ((impl::getNodeId<string_adaptor>(next) == impl::Slash_id) || (impl::getNodeId<string_adaptor>(next) == impl::SlashSlash_id)))
+            // not a separator, but a bracketed root, as in (/)/a
+            steps.push_back(new impl::ExprStepExpression<string_type, string_adaptor>(XPath<string_type, string_adaptor>::compile_expression(c, end, context),
+                                                                                      std::vector<XPathExpression_impl<string_type, string_adaptor>*>()));
+          ++c; // otherwise just drop it
+        }
         break;
 
       case impl::FilterExpr_id:
-- 
2.43.0


From 0e8de8f2c3eb0309ab7733992cc8fb3330d61225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:55 +0000
Subject: [PATCH 045/106] fix: a parse that ended in error or an exception left
 the expat reader unusable or with stale state

---
 include/SAX/wrappers/saxexpat.hpp | 36 +++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index a795550..f3b1d6d 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -22,6 +22,8 @@
 #include <Arabica/StringAdaptor.hpp>
 #include <SAX/helpers/AttributeDefaults.hpp>
 #include <typeinfo>
+#include <memory>
+#include <type_traits>
 #include <map>
 #include <Arabica/getparam.hpp>
 
@@ -268,6 +270,17 @@ class expat_wrapper :
     qualifiedNameT processName(const string_type& qName, bool isAttribute);
     void reportError(const std::string& message, bool fatal = false);
     void checkNotParsing(const string_type& type, const string_type& name) const;
+    void reset();
+
+    struct ParseGuard // however the parse ends, the next one starts afresh
+    {
+      ParseGuard(expat_wrapper& reader) : reader_(reader) { reader_.parsing_ = true; }
+      ~ParseGuard() { reader_.reset(); }
+      expat_wrapper& reader_;
+    private:
+      ParseGuard(const ParseGuard&);
+      ParseGuard& operator=(const ParseGuard&);
+    }; // struct ParseGuard
   
   private:
     virtual void charHandler(const char* txt, int txtlen);
@@ -459,7 +472,7 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
   if(contentHandler_)
     contentHandler_->setDocumentLocator(*this);
 
-  parsing_ = true;
+  ParseGuard guard(*this);
 
   if(contentHandler_)
     contentHandler_->startDocument();
@@ -470,11 +483,19 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 
   if(contentHandler_)
     contentHandler_->endDocument();
+} // parse
 
+template<class string_type, class T0, class T1>
+void expat_wrapper<string_type, T0, T1>::reset()
+{
+  // a parser that a handler threw out of can't be reset, so start with a new one
+  XML_ParserFree(parser_);
+  parser_ = XML_ParserCreate(0);
+  nsSupport_.reset();
+  namespaceContextCreated_.clear();
+  declaredExternalEnts_.clear();
   parsing_ = false;
-
-  XML_ParserReset(parser_, 0);
-} // parse
+} // reset
 
 template<class string_type, class T0, class T1>
 bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Parser parser)  
@@ -1022,11 +1043,12 @@ int expat_wrapper<string_type, T0, T1>::externalEntityRefHandler(XML_Parser pars
     source.setSystemId(sysId);
   } // if ...
 
-  XML_Parser externalParser = XML_ExternalEntityParserCreate(parser, context, 0);
+  std::unique_ptr<std::remove_pointer<XML_Parser>::type, void (*)(XML_Parser)> 
+      externalParser(XML_ExternalEntityParserCreate(parser, context, 0), XML_ParserFree);
 
-  bool ok = do_parse(source, externalParser);
+  bool ok = do_parse(source, externalParser.get());
 
-  XML_ParserFree(externalParser);
+  externalParser.reset();
 
   if(!SA::empty(entityName) && lexicalHandler_)
     lexicalHandler_->endEntity(entityName);
-- 
2.43.0


From 379463960d43f26e70dfc5920c315074a0856d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:55 +0000
Subject: [PATCH 046/106] fix: the expat wrapper took attributes such as
 xmlnsfoo for namespace declarations

---
 include/SAX/wrappers/saxexpat.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index f3b1d6d..9d5bbc6 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -270,6 +270,7 @@ class expat_wrapper :
     qualifiedNameT processName(const string_type& qName, bool isAttribute);
     void reportError(const std::string& message, bool fatal = false);
     void checkNotParsing(const string_type& type, const string_type& name) const;
+    bool isDeclaration(const string_type& attQName) const;
     void reset();
 
     struct ParseGuard // however the parse ends, the next one starts afresh
@@ -625,7 +626,7 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
       string_type value = SA::construct_from_utf8(*a1++);
 
       // declaration?
-      if(SA::find(attQName, nsc_.xmlns) == 0) 
+      if(isDeclaration(attQName)) 
       {
         if (!pushedContext)
         {
@@ -655,7 +656,7 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
       string_type value = SA::construct_from_utf8(*atts++);
 
       // declaration?
-      if(SA::find(attQName, nsc_.xmlns) != 0) 
+      if(!isDeclaration(attQName)) 
       {
         qualifiedNameT attName = processName(attQName, true);
         attributes.addAttribute(attName.namespaceUri(), 
@@ -673,6 +674,14 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
   contentHandler_->startElement(name.namespaceUri(), name.localName(), name.rawName(), attributes);
 } // startElement
 
+template<class string_type, class T0, class T1>
+bool expat_wrapper<string_type, T0, T1>::isDeclaration(const string_type& attQName) const
+{
+  return SA::find(attQName, nsc_.xmlns) == 0 &&
+         (SA::length(attQName) == SA::length(nsc_.xmlns) ||
+          SA::find(attQName, nsc_.colon) == SA::length(nsc_.xmlns));
+} // isDeclaration
+
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::startElementNoNS(const char* qName, const char** atts)
 {
-- 
2.43.0


From a04fc257a8e3867ff8f5b03e2f61e382877e75ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:55 +0000
Subject: [PATCH 047/106] fix: the expat wrapper repeated the outer element's
 endPrefixMapping at elements declaring nothing

---
 include/SAX/wrappers/saxexpat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 9d5bbc6..82dc5e6 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -719,14 +719,14 @@ void expat_wrapper<string_type, T0, T1>::endElement(const char* qName)
 
   qualifiedNameT name = processName(SA::construct_from_utf8(qName), false);
   contentHandler_->endElement(name.namespaceUri(), name.localName(), name.rawName());
-  typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
-  for(size_t i = 0, end = prefixes.size(); i < end; ++i)
-    contentHandler_->endPrefixMapping(prefixes[i]);
   
   bool pushedContext = namespaceContextCreated_.back();
   namespaceContextCreated_.pop_back();
   if (pushedContext)
   {
+    typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
+    for(size_t i = 0, end = prefixes.size(); i < end; ++i)
+      contentHandler_->endPrefixMapping(prefixes[i]);
     nsSupport_.popContext();
   }
 } // endElement
-- 
2.43.0


From c9c6050b3fc0e908970d6e4170fb08fe6fcad418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:55 +0000
Subject: [PATCH 048/106] fix: the expat wrapper reported a fatal error in an
 external entity twice, and as no error

---
 include/SAX/wrappers/saxexpat.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 82dc5e6..b3689ef 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -342,6 +342,7 @@ class expat_wrapper :
     string_type publicId_;
     string_type systemId_;
     bool parsing_;
+    bool fatalReported_;
 
     // features
     bool namespaces_;
@@ -369,6 +370,7 @@ expat_wrapper<string_type, T0, T1>::expat_wrapper() :
   lexicalHandler_(0),
   parser_(XML_ParserCreate(0)),
   parsing_(false),
+  fatalReported_(false),
   namespaces_(true),
   prefixes_(true),
   externalResolving_(false)
@@ -495,6 +497,7 @@ void expat_wrapper<string_type, T0, T1>::reset()
   nsSupport_.reset();
   namespaceContextCreated_.clear();
   declaredExternalEnts_.clear();
+  fatalReported_ = false;
   parsing_ = false;
 } // reset
 
@@ -521,8 +524,9 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
     is.resolve()->read(buffer, BUFF_SIZE);
     if(XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), is.resolve()->eof()) == 0)
     {
-      // error
-      reportError(XML_ErrorString(XML_GetErrorCode(parser_)), true);
+      // error, which may have been reported from an external entity already
+      if(!fatalReported_)
+        reportError(XML_ErrorString(XML_GetErrorCode(parser)), true);
       return false;
     } // if ...
   } // while
@@ -567,6 +571,9 @@ typename XML::QualifiedName<string_type, typename expat_wrapper<string_type, T0,
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::reportError(const std::string& message, bool fatal)
 {
+  if(fatal)
+    fatalReported_ = true;
+
   if(!errorHandler_)
     return;
   
-- 
2.43.0


From 455ab78711d6bc278574cd6dd4ca83fa85330fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:55 +0000
Subject: [PATCH 049/106] fix: the expat wrapper declared attributes with a
 plain default as #IMPLIED

---
 include/SAX/wrappers/saxexpat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index b3689ef..1774fbb 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -890,7 +890,7 @@ void expat_wrapper<string_type, T0, T1>::attListDeclaration(const XML_Char* elna
   default is non-NULL, then this is a "#FIXED" default. */
   if(declHandler_)
   {
-    const string_type* defType = &attrDefaults_.implied;
+    const string_type* defType = dflt ? &emptyString_ : &attrDefaults_.implied;
     if(isrequired)
       defType = dflt ? &attrDefaults_.fixed : &attrDefaults_.required;
     declHandler_->attributeDecl(SA::construct_from_utf8(elname), 
-- 
2.43.0


From 619cc0fd3a0a6c9f7552e39fd26671b3bedce5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:55 +0000
Subject: [PATCH 050/106] fix: the expat wrapper put no separator after #PCDATA
 in mixed content models

---
 include/SAX/wrappers/saxexpat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 1774fbb..3c051a7 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -850,7 +850,7 @@ struct XML_cp {
 
     for(unsigned int i = 0; i < model->numchildren; ++i)
     {
-      if(i != 0)
+      if(i != 0 || model->type == XML_CTYPE_MIXED)
         os << concatenator;
       convertXML_Content(os, &(model->children[i]), true); 
     } // for ... 
-- 
2.43.0


From 8dd169856b4104d75e5e5d09e08d5d1e167f52da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:55 +0000
Subject: [PATCH 051/106] fix: InputSource::setByteStream(unique_ptr) did not
 compile

---
 include/SAX/InputSource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/InputSource.hpp b/include/SAX/InputSource.hpp
index cccc879..6c02a14 100644
--- a/include/SAX/InputSource.hpp
+++ b/include/SAX/InputSource.hpp
@@ -263,7 +263,7 @@ public:
    */
   void setByteStream(std::unique_ptr<std::istream> byteStream)
   {
-    byteStream_ = byteStream;
+    byteStream_ = std::move(byteStream);
   } // setByteStream
 
   /**
-- 
2.43.0


From 07c0a723f724ac78e856daace3b8c0933d6123be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:55 +0000
Subject: [PATCH 052/106] fix: narrow-string names with non-ASCII characters
 were refused as malformed

---
 include/XML/strings.hpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/include/XML/strings.hpp b/include/XML/strings.hpp
index fb01057..bc02d1f 100755
--- a/include/XML/strings.hpp
+++ b/include/XML/strings.hpp
@@ -20,6 +20,32 @@ namespace Arabica
 {
 namespace XML
 {
+namespace impl
+{
+  // the character at s, moving s past it. Strings of narrow characters are in UTF-8.
+  template<typename value_type, typename const_iterator>
+  inline wchar_t next_character(const_iterator& s, const const_iterator& e)
+  {
+    const value_type c = *s++;
+    if(sizeof(value_type) != 1 || !(static_cast<unsigned char>(c) & 0x80))
+      return static_cast<wchar_t>(c);
+
+    const unsigned char lead = static_cast<unsigned char>(c);
+    int following = (lead >= 0xF0) ? 3 : (lead >= 0xE0) ? 2 : (lead >= 0xC0) ? 1 : 0;
+    if(following == 0)
+      return 0;
+
+    unsigned long character = lead & (0x3F >> following);
+    for( ; following != 0; --following, ++s)
+    {
+      if(s == e || (static_cast<unsigned char>(*s) & 0xC0) != 0x80)
+        return 0;
+      character = (character << 6) | (static_cast<unsigned char>(*s) & 0x3F);
+    } // for ...
+    return static_cast<wchar_t>(character);
+  } // next_character
+} // namespace impl
+
   template<typename string_adaptor>
   inline bool is_ncname(const typename string_adaptor::const_iterator& b,
                         const typename string_adaptor::const_iterator& e)
@@ -32,14 +58,13 @@ namespace XML
       return false;  // zero length
 
     const_iterator s = b;
-    if(!(is_letter(*s) || (*s == Unicode<value_type>::LOW_LINE)))
+    const wchar_t first = impl::next_character<value_type>(s, e);
+    if(!(is_letter(first) || (first == Unicode<wchar_t>::LOW_LINE)))
        return false;
 
-    ++s;
-    for( ; s != e; ++s)
+    while(s != e)
     {
-      value_type c = *s;
-      if(!is_ncname_char(c))
+      if(!is_ncname_char(impl::next_character<value_type>(s, e)))
         return false;
     }
     return true;
-- 
2.43.0


From e67d10ba55f2e604228b203ee57b826f51ecf5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:53 +0000
Subject: [PATCH 053/106] fix: TextCoalescer let skipped entities and prefix
 mappings overtake the text before them

---
 include/SAX/filter/TextCoalescer.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/SAX/filter/TextCoalescer.hpp b/include/SAX/filter/TextCoalescer.hpp
index e461c87..542241e 100644
--- a/include/SAX/filter/TextCoalescer.hpp
+++ b/include/SAX/filter/TextCoalescer.hpp
@@ -34,6 +34,30 @@ public:
   {
   } // TextCoalescer
 
+  virtual void startDocument()
+  {
+    buffer_ = string_adaptor::empty_string(); // the last parse may have been cut short
+    XMLFilterT::startDocument();
+  } // startDocument
+
+  virtual void endDocument()
+  {
+    flush();
+    XMLFilterT::endDocument();
+  } // endDocument
+
+  virtual void startPrefixMapping(const string_type& prefix, const string_type& uri)
+  {
+    flush();
+    XMLFilterT::startPrefixMapping(prefix, uri);
+  } // startPrefixMapping
+
+  virtual void skippedEntity(const string_type& name)
+  {
+    flush();
+    XMLFilterT::skippedEntity(name);
+  } // skippedEntity
+
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts) 
   { 
-- 
2.43.0


From 2add619c22086e45f7b088910dab109dc7408adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:53 +0000
Subject: [PATCH 054/106] fix: comments and processing instructions in a DTD
 became children of the document

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 19152c9..5263a19 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -248,7 +248,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void processingInstruction(const stringT& target, const stringT& data)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_ == true)
         return;
 
       currentNode_.appendChild(document_.createProcessingInstruction(target, data));
@@ -347,7 +347,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void comment(const stringT& text)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_ == true)
         return;
 
       currentNode_.appendChild(document_.createComment(text));
-- 
2.43.0


From 14ffdd4d7b117ff06419afde9ed9123bafbd4620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:53 +0000
Subject: [PATCH 055/106] fix: an entity with markup that cannot be parsed on
 its own crashed the DOM parser

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 5263a19..44a8eb2 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -408,6 +408,9 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       parser.parse(is);       
 
       DOM::Document<stringT, string_adaptorT> entityDoc = parser.getDocument();
+      if(entityDoc == 0) // it refers to other entities, or uses prefixes declared elsewhere
+        return;
+
       DOM::Element<stringT, string_adaptorT> entityElem = entityDoc.getDocumentElement();
       DOM::Node<stringT, string_adaptorT> child = entityElem.getFirstChild();
       while(child != 0)
-- 
2.43.0


From 868bc77baa2618d00b9b72bc652de8ef4910b345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:53 +0000
Subject: [PATCH 056/106] fix: the DOM parser never heard of notations and
 unparsed entities

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 44a8eb2..4e44f48 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -112,6 +112,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
       parser.setLexicalHandler(*this);
       parser.setDeclHandler(*this);
+      parser.setDTDHandler(*this);
 
       setParserFeatures(parser);
 
-- 
2.43.0


From 416a728586836e965e4e651cf2cea225bdf1c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 057/106] fix: external entities crashed or garbled the DOM
 when nested, repeated, unresolved or parsed again

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 51 +++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 4e44f48..badf841 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -12,6 +12,7 @@
 #include <DOM/DOMException.hpp>
 #include <DOM/SAX2DOM/DocumentTypeImpl.hpp>
 #include <map>
+#include <vector>
 #include <SAX/helpers/FeatureNames.hpp>
 #include <SAX/SAXParseException.hpp>
 
@@ -99,9 +100,11 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       DOM::DOMImplementation<stringT, string_adaptorT> di = Arabica::SimpleDOM::DOMImplementation<stringT, string_adaptorT>::getDOMImplementation();
       document_ = di.createDocument(string_adaptorT::construct_from_utf8(""), string_adaptorT::construct_from_utf8(""), 0);
       currentNode_ = document_;
+      documentType_ = 0;
+      declaredEntities_.clear();
+      entityParents_.clear();
       inCDATA_ = false;
       inDTD_ = false;
-      inEntity_ = 0;
 
       SAX_parser_type base_parser;
       TextCoalescerT parser(base_parser);
@@ -143,6 +146,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     {
       currentNode_ = 0;
       document_ = 0;
+      entityParents_.clear();
     } // reset
 
   protected:
@@ -158,14 +162,13 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     DOM::Document<stringT, string_adaptorT> document_;
     DocumentType<stringT, string_adaptorT >* documentType_;
     DOM::Node<stringT, string_adaptorT> currentNode_;
-    DOM::Node<stringT, string_adaptorT> cachedCurrent_;
+    std::vector<DOM::Node<stringT, string_adaptorT> > entityParents_; // where the entities now open were referred to
 
     typedef std::map<stringT, bool> Features;
     Features features_;
 
     bool inCDATA_;
     bool inDTD_;
-    int inEntity_;
 
     std::map<stringT, EntityT*> declaredEntities_;
 
@@ -307,32 +310,36 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       if(currentNode_ == 0)
         return;
 
-      if(++inEntity_ == 1)
-      {
-        cachedCurrent_ = currentNode_;
-        currentNode_ = declaredEntities_[name];
-        if(currentNode_ != 0 && currentNode_.hasChildNodes() == true) // already populated
-          currentNode_ = 0;
-      }
+      // gather the content, so that the entity can have it too
+      entityParents_.push_back(currentNode_);
+      currentNode_ = document_.createDocumentFragment();
     } // startEntity
 
     virtual void endEntity(const stringT& name)
     {
-      if(--inEntity_ == 0)
-        currentNode_ = cachedCurrent_;
+      if(entityParents_.empty())
+        return;
 
-      if(this->dtd_pseudo_entity == name)
+      DOM::Node<stringT, string_adaptorT> content = currentNode_;
+      currentNode_ = entityParents_.back();
+      entityParents_.pop_back();
+
+      if(inDTD_)
         return;
-	  
-	  const EntityT* declared = declaredEntities_[name];
-	  if(declared != 0 && declared->getLength() != 0)
-	  {
-		for(DOM::Node<stringT, string_adaptorT> child = declared->getFirstChild();
+
+      typename std::map<stringT, EntityT*>::const_iterator declared = declaredEntities_.find(name);
+      if(declared != declaredEntities_.end() && declared->second->getLength() == 0)
+      {
+        DOM::Node<stringT, string_adaptorT> entity = declared->second;
+        for(DOM::Node<stringT, string_adaptorT> child = content.getFirstChild();
             child != 0;
-		    child = child.getNextSibling())
-		  currentNode_.appendChild(child.cloneNode(true));
-	  }
-	  else
+            child = child.getNextSibling())
+          entity.appendChild(child.cloneNode(true));
+      } // if ...
+
+      if(content.hasChildNodes())
+        currentNode_.appendChild(content);
+      else
         currentNode_.appendChild(document_.createEntityReference(name));
     } // endEntity
 
-- 
2.43.0


From 67f06101d5a46244dc5a7aa504e241d93cc2b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:57 +0000
Subject: [PATCH 058/106] fix: a CDATA section holding more than one ]]> was
 written with some of its text repeated

---
 include/DOM/io/Stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index ace6cf9..b824e15 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -311,7 +311,7 @@ void streamCDATA(std::basic_ostream<charT, traitsT>& stream, const DOM::Node<str
     do
     {
       breakAt += 2;
-      stream << string_adaptorT::substr(value, start, breakAt);
+      stream << string_adaptorT::substr(value, start, breakAt - start);
       StreamImpl::endCDATA(stream);
       start = breakAt;
       StreamImpl::startCDATA(stream);
-- 
2.43.0


From 0ef4002e0972e59bb990b0befa3ccdb5039d9c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:57 +0000
Subject: [PATCH 059/106] fix: carriage returns in text were written as they
 are, and so read back as line feeds

---
 include/XML/escaper.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/XML/escaper.hpp b/include/XML/escaper.hpp
index 0bc054f..2351840 100644
--- a/include/XML/escaper.hpp
+++ b/include/XML/escaper.hpp
@@ -45,6 +45,15 @@ class text_escaper
                 << UnicodeT::SEMI_COLON;
 	      return;
       } // if(ch == case UnicodeT::AMPERSAND)
+      if(ch == UnicodeT::CARRIAGE_RETURN)
+      {
+        stream_ << UnicodeT::AMPERSAND
+                << UnicodeT::NUMBER_SIGN
+                << UnicodeT::LOWERCASE_X
+                << UnicodeT::CAPITAL_D
+                << UnicodeT::SEMI_COLON;
+        return;
+      } // if(ch == UnicodeT::CARRIAGE_RETURN)
 
       stream_ << ch;
     } // operator()
-- 
2.43.0


From 1cc07621a91c018b9e62c70dcd03c567a28b0845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:51 +0000
Subject: [PATCH 060/106] fix: declaring the xml prefix as what it is was
 refused, and refused declarations were started but never ended

---
 include/SAX/wrappers/saxexpat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 3c051a7..7e77083 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -645,9 +645,10 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
         typename SA::size_type n = SA::find(attQName, nsc_.colon);
         if(n != SA::npos())
           prefix = SA::construct(SA::begin(attQName) + n + 1, SA::end(attQName));
-        if(!nsSupport_.declarePrefix(prefix, value)) 
+        if(nsSupport_.declarePrefix(prefix, value)) 
+          contentHandler_->startPrefixMapping(prefix, value);
+        else if(prefix != nsc_.xml || value != nsc_.xml_uri) // xml may be declared as what it is
           reportError(std::string("Illegal Namespace prefix ") + SA::asStdString(prefix));
-        contentHandler_->startPrefixMapping(prefix, value);
         if(prefixes_)
           attributes.addAttribute(emptyString_, 
                                   emptyString_, 
-- 
2.43.0


From ceafc49e6b03e69a8fe75234d6f2eeb2cf40a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:51 +0000
Subject: [PATCH 061/106] fix: documents were written with names in the wrong
 namespace or with the same prefix declared twice

---
 include/DOM/io/Stream.hpp | 154 +++++++++++++++++++++++++-------------
 1 file changed, 103 insertions(+), 51 deletions(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index b824e15..2d3fd4f 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -25,6 +25,9 @@
 #include <iostream>
 #include <algorithm>
 #include <map>
+#include <set>
+#include <sstream>
+#include <vector>
 #include <text/UnicodeCharacters.hpp>
 #include <XML/escaper.hpp>
 
@@ -44,53 +47,102 @@ void prefix_mapper_callback(std::ios_base::event ev, std::ios_base& stream, int
 } // boing_callback
 
 template<class stringT>
-std::pair<bool, stringT> is_uri_declared(std::vector<std::map<stringT, stringT> >* prefix_stack, const stringT& namespaceURI)
+std::pair<bool, stringT> uri_for_prefix(const std::vector<std::map<stringT, stringT> >* prefix_stack, const stringT& prefix)
 {
-  stringT declared_prefix;
-  for(typename std::vector<std::map<stringT, stringT> >::reverse_iterator b = prefix_stack->rbegin(), e = prefix_stack->rend();
+  for(typename std::vector<std::map<stringT, stringT> >::const_reverse_iterator b = prefix_stack->rbegin(), e = prefix_stack->rend();
         b != e;
         ++b)
   {
-    typename std::map<stringT, stringT>::const_iterator p = b->find(namespaceURI);
+    typename std::map<stringT, stringT>::const_iterator p = b->find(prefix);
     if(p != b->end())
       return std::make_pair(true, p->second);
   } // for ...
 
+  return std::make_pair(false, stringT());
+} // uri_for_prefix
+
+// finds a prefix which stands for the namespace here
+template<class stringT, class string_adaptorT>
+std::pair<bool, stringT> is_uri_declared(const std::vector<std::map<stringT, stringT> >* prefix_stack, 
+                                         const stringT& namespaceURI, 
+                                         const stringT& preferred,
+                                         const bool is_attribute)
+{
+  if(!is_attribute || !string_adaptorT::empty(preferred))
+  {
+    const std::pair<bool, stringT> uri = uri_for_prefix(prefix_stack, preferred);
+    if(uri.first && uri.second == namespaceURI)
+      return std::make_pair(true, preferred);
+  } // if ...
+
+  for(typename std::vector<std::map<stringT, stringT> >::const_reverse_iterator b = prefix_stack->rbegin(), e = prefix_stack->rend();
+        b != e;
+        ++b)
+    for(typename std::map<stringT, stringT>::const_iterator p = b->begin(), pe = b->end(); p != pe; ++p)
+    {
+      if(p->second != namespaceURI || (is_attribute && string_adaptorT::empty(p->first)))
+        continue;
+      if(uri_for_prefix(prefix_stack, p->first).second == namespaceURI) // not redeclared further in
+        return std::make_pair(true, p->first);
+    } // for ...
+
   return std::make_pair(false, stringT());
 } // is_uri_declared
 
 template<class stringT, class string_adaptorT, class charT, class traitsT>
-void check_and_output_node_name(std::basic_ostream<charT, traitsT>& stream, 
-                                const DOM::Node<stringT, string_adaptorT>& node, 
-                                std::vector<std::map<stringT, stringT> >* prefix_stack,
-				const bool is_attribute,
-				const long index)
+stringT node_name(std::basic_ostream<charT, traitsT>& stream, 
+                  const DOM::Node<stringT, string_adaptorT>& node, 
+                  std::vector<std::map<stringT, stringT> >* prefix_stack,
+                  std::set<stringT>& prefixes_used,
+                  const bool is_attribute,
+                  const long index)
 {
+  static const stringT xml_uri = string_adaptorT::construct_from_utf8("http://www.w3.org/XML/1998/namespace");
+  typedef Arabica::text::Unicode<charT> UnicodeT;
+
   std::map<stringT, stringT>& current = *(prefix_stack->rbegin());
 
-  stringT namespaceURI = node.getNamespaceURI();
-  if(!string_adaptorT::empty(namespaceURI))
+  const stringT namespaceURI = node.getNamespaceURI();
+  if(string_adaptorT::empty(namespaceURI))
   {
-    std::pair<bool, stringT> prefix = is_uri_declared(prefix_stack, namespaceURI);
-    
-    if(!prefix.first)
+    const stringT no_prefix;
+    if(!is_attribute && !string_adaptorT::empty(uri_for_prefix(prefix_stack, no_prefix).second))
+      current[no_prefix] = no_prefix; 
+    return node.getNodeName();
+  } // if ...
+
+  stringT prefix = node.getPrefix();
+  if(namespaceURI == xml_uri)
+    prefix = string_adaptorT::construct_from_utf8("xml");
+  else
+  {
+    const std::pair<bool, stringT> declared = is_uri_declared<stringT, string_adaptorT>(prefix_stack, namespaceURI, prefix, is_attribute);
+    if(declared.first)
+      prefix = declared.second;
+    else
     {
-      current[namespaceURI] = prefix.second = node.getPrefix();
-      if(is_attribute && string_adaptorT::empty(prefix.second))
-      {
-	std::ostringstream os;
-	os << 'a' << stream.iword(index)++;
-	current[namespaceURI] = prefix.second = string_adaptorT::construct_from_utf8(os.str().c_str());
-      } // if ...
+      if(is_attribute)
+        while(string_adaptorT::empty(prefix) || 
+              current.find(prefix) != current.end() || 
+              prefixes_used.find(prefix) != prefixes_used.end())
+        {
+          std::ostringstream os;
+          os << 'a' << stream.iword(index)++;
+          prefix = string_adaptorT::construct_from_utf8(os.str().c_str());
+        } // while ...
+      current[prefix] = namespaceURI;
     } // if ...
+    prefixes_used.insert(prefix);
+  } // if ...
 
-    if(!string_adaptorT::empty(prefix.second))
-      stream << prefix.second << Arabica::text::Unicode<charT>::COLON;
-    stream << node.getLocalName();
-  }
-  else
-    stream << node.getNodeName();
-} // check_and_output_node_name
+  if(string_adaptorT::empty(prefix))
+    return node.getLocalName();
+
+  stringT name = prefix;
+  string_adaptorT::append(name, string_adaptorT::construct_from_utf8(":"));
+  string_adaptorT::append(name, node.getLocalName());
+  return name;
+} // node_name
 
 template<class stringT, class string_adaptorT, class charT>
 bool isXmlns(const stringT& str)
@@ -123,13 +175,16 @@ bool compare_nodes_by_name(const DOM::Node<stringT, string_adaptorT>& lhs,
   return lhsURI < rhsURI;
 } // class compare_nodes_by_name
 
+// writes the element's name, attributes and namespace declarations, and returns the name
 template<class stringT, class string_adaptorT, class charT, class traitsT>
-int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
-                  const DOM::Node<stringT, string_adaptorT>& node)
+stringT prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
+                      const DOM::Node<stringT, string_adaptorT>& node,
+                      int& stack_index)
 {
   typedef Arabica::text::Unicode<charT> UnicodeT;
 
   static const int index = std::ios_base::xalloc();
+  stack_index = index;
   std::vector<std::map<stringT, stringT> >* prefix_stack;
   
   if(stream.pword(index) != 0)
@@ -150,8 +205,8 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
     {
       if(string_adaptorT::empty(p.getNamespaceURI()))
         continue;
-      if(prefixes.find(p.getNamespaceURI()) == prefixes.end())
-        prefixes[p.getNamespaceURI()] = p.getPrefix();
+      if(prefixes.find(p.getPrefix()) == prefixes.end())
+        prefixes[p.getPrefix()] = p.getNamespaceURI();
     } // for ...
 
     prefix_stack->push_back(prefixes);
@@ -160,7 +215,9 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
   std::map<stringT, stringT>& current = *(prefix_stack->rbegin());
 
   // is element namespace URI declared?
-  check_and_output_node_name(stream, node, prefix_stack, false, index);
+  std::set<stringT> prefixes_used;
+  const stringT name = node_name(stream, node, prefix_stack, prefixes_used, false, index);
+  stream << name;
   
   const DOM::NamedNodeMap<stringT, string_adaptorT> attrs = node.getAttributes();
   std::vector<DOM::Node<stringT, string_adaptorT> > attrNodes;
@@ -178,7 +235,7 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
        isXmlns<stringT, string_adaptorT, charT>(attr.getPrefix()))
       continue;
     stream << UnicodeT::SPACE;
-    check_and_output_node_name(stream, attr, prefix_stack, true, index);
+    stream << node_name(stream, attr, prefix_stack, prefixes_used, true, index);
     stream  << UnicodeT::EQUALS_SIGN
             << UnicodeT::QUOTATION_MARK;
     stringT value = attr.getNodeValue();
@@ -198,30 +255,25 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
            << UnicodeT::LOWERCASE_L
            << UnicodeT::LOWERCASE_N
            << UnicodeT::LOWERCASE_S;
-    if(!(string_adaptorT::empty(i->second)))
-      stream << UnicodeT::COLON << i->second;
+    if(!(string_adaptorT::empty(i->first)))
+      stream << UnicodeT::COLON << i->first;
     stream << UnicodeT::EQUALS_SIGN << UnicodeT::QUOTATION_MARK;
-    std::for_each(string_adaptorT::begin(i->first), 
-                  string_adaptorT::end(i->first), 
+    std::for_each(string_adaptorT::begin(i->second), 
+                  string_adaptorT::end(i->second), 
                   Arabica::XML::attribute_escaper<charT, traitsT>(stream));
     stream << UnicodeT::QUOTATION_MARK;
   } // for ...
 
-  return index;
+  return name;
 } // prefix_mapper
 
-template<class stringT, class string_adaptorT, class charT, class traitsT>
+template<class stringT, class charT, class traitsT>
 void prefix_mapper_pop(std::basic_ostream<charT, traitsT>& stream,
-                       const DOM::Node<stringT, string_adaptorT>& node,
-                       int index, 
-                       bool output)
+                       int index)
 {
   std::vector<std::map<stringT, stringT> >* prefix_stack = 
     static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
 
-  if(output)
-    check_and_output_node_name(stream, node, prefix_stack, false, index);
-
   prefix_stack->pop_back();
   if(prefix_stack->empty())
   {
@@ -249,21 +301,21 @@ void streamElement(std::basic_ostream<charT, traitsT>& stream, const DOM::Node<s
   typedef Arabica::text::Unicode<charT> UnicodeT;
 
   stream << UnicodeT::LESS_THAN_SIGN;
-  int index = StreamImpl::prefix_mapper(stream, node);
+  int index;
+  const stringT name = StreamImpl::prefix_mapper(stream, node, index);
 
   if(node.hasChildNodes())
   {
     stream << UnicodeT::GREATER_THAN_SIGN;
     StreamImpl::streamChildren(stream, node);
-    stream << UnicodeT::LESS_THAN_SIGN << UnicodeT::SLASH;
-    StreamImpl::prefix_mapper_pop(stream, node, index, true);
-    stream << UnicodeT::GREATER_THAN_SIGN;
+    stream << UnicodeT::LESS_THAN_SIGN << UnicodeT::SLASH << name << UnicodeT::GREATER_THAN_SIGN;
   }
   else
   {
-    StreamImpl::prefix_mapper_pop(stream, node, index, false);
     stream << UnicodeT::SLASH << UnicodeT::GREATER_THAN_SIGN;
   }
+
+  StreamImpl::prefix_mapper_pop<stringT>(stream, index);
 } // streamElement
 
 template<class charT, class traitsT>
-- 
2.43.0


From 795fa4c0364544a61ac7cfbb9f72c6aac8e59b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:34 +0000
Subject: [PATCH 062/106] fix: the DOM refused names and processing
 instructions with non-ASCII characters in narrow strings

---
 include/DOM/Simple/NodeImpl.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index 2db3ee8..f0dbdca 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -10,6 +10,7 @@
 #include <DOM/Events/EventListener.hpp>
 #include <DOM/DOMException.hpp>
 #include <XML/XMLCharacterClasses.hpp>
+#include <XML/strings.hpp>
 #include <deque>
 #include <algorithm>
 #include <map>
@@ -221,8 +222,8 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       typedef typename string_adaptorT::const_iterator const_iterator;
       const_iterator i = string_adaptorT::begin(str);
       const_iterator ie = string_adaptorT::end(str);
-      for( ; i != ie; ++i)
-	if(!XML::is_name_char(*i))
+      while(i != ie)
+	if(!XML::is_name_char(XML::impl::next_character<typename string_adaptorT::value_type>(i, ie)))
 	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
     } // checkName
 
@@ -231,8 +232,8 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       typedef typename string_adaptorT::const_iterator const_iterator;
       const_iterator i = string_adaptorT::begin(str);
       const_iterator ie = string_adaptorT::end(str);
-      for( ; i != ie; ++i)
-	if(!XML::is_char(*i))
+      while(i != ie)
+	if(!XML::is_char(XML::impl::next_character<typename string_adaptorT::value_type>(i, ie)))
 	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
     } // checkChars
 
-- 
2.43.0


From 65b557bc4a8f75e9f03817c4900163e02c987d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:30 +0000
Subject: [PATCH 063/106] fix: a defaulted attribute with a prefix was there
 twice, once without its namespace, when the document gives it too

---
 include/DOM/SAX2DOM/DocumentTypeImpl.hpp | 141 ++++++++++++-----------
 include/DOM/Simple/AttrMap.hpp           |  26 ++++-
 2 files changed, 98 insertions(+), 69 deletions(-)

diff --git a/include/DOM/SAX2DOM/DocumentTypeImpl.hpp b/include/DOM/SAX2DOM/DocumentTypeImpl.hpp
index f6835a6..62f941b 100644
--- a/include/DOM/SAX2DOM/DocumentTypeImpl.hpp
+++ b/include/DOM/SAX2DOM/DocumentTypeImpl.hpp
@@ -1,66 +1,75 @@
-#ifndef JEZUK_SAX2DOM_DOCUMENTTYPEIMPL_H
-#define JEZUK_SAX2DOM_DOCUMENTTYPEIMPL_H
-
-#include <DOM/Simple/DocumentTypeImpl.hpp>
-
-namespace Arabica
-{
-namespace SAX2DOM
-{
-
-template<class stringT, class string_adaptorT>
-class DocumentType : public Arabica::SimpleDOM::DocumentTypeImpl<stringT, string_adaptorT>
-{
-    typedef Arabica::SimpleDOM::DocumentTypeImpl<stringT, string_adaptorT> BaseDT;
-  public:
-    DocumentType(const stringT& qualifiedName,
-                 const stringT& publicId,
-                 const stringT& systemId) :
-      BaseDT(qualifiedName, publicId, systemId)
-    {
-    } // DocumentType
-
-    virtual ~DocumentType() { }
-
-    //////////////////////////////////////////////////////
-    // DOM::DOMImplementation extensions
-    void addEntity(Arabica::SimpleDOM::EntityImpl<stringT, string_adaptorT>* entity)
-    {
-      BaseDT::addEntity(entity);
-    } // addEntity
-
-    void addNotation(Arabica::SimpleDOM::NotationImpl<stringT, string_adaptorT>* notation)
-    {
-      BaseDT::addNotation(notation);
-    } // addNotation
-
-    void addElement(const stringT& name)
-    {
-      BaseDT::addElement(new Arabica::SimpleDOM::ElementImpl<stringT, string_adaptorT>(BaseDT::ownerDoc_, name));
-    } // addElement
-
-    void addDefaultAttr(const stringT& elementName, const stringT& attributeName, const stringT& attributeValue)
-    {
-      Arabica::SimpleDOM::ElementImpl<stringT, string_adaptorT>* elem = dynamic_cast<Arabica::SimpleDOM::ElementImpl<stringT, string_adaptorT>*>(BaseDT::getElements()->getNamedItem(elementName));
-      if(elem == 0)
-      {
-        addElement(elementName);
-        elem = dynamic_cast<Arabica::SimpleDOM::ElementImpl<stringT, string_adaptorT>*>(BaseDT::getElements()->getNamedItem(elementName));
-      }
-      Arabica::SimpleDOM::AttrImpl<stringT, string_adaptorT>* attr = new Arabica::SimpleDOM::AttrImpl<stringT, string_adaptorT>(BaseDT::ownerDoc_, attributeName);
-      attr->setValue(attributeValue);
-      attr->setSpecified(false);
-      elem->setAttributeNode(attr);
-    } // addDefaultAttr
-
-    void addElementId(const stringT& elementName)
-    {
-      BaseDT::addElementId(elementName);
-    } // addElementId
-}; // class DOMImplementation
-
-} // namespace SAX2DOM
-} // namespace Arabica
-
-#endif
-// end of file
+#ifndef JEZUK_SAX2DOM_DOCUMENTTYPEIMPL_H
+#define JEZUK_SAX2DOM_DOCUMENTTYPEIMPL_H
+
+#include <DOM/Simple/DocumentTypeImpl.hpp>
+#include <DOM/Simple/AttrNSImpl.hpp>
+
+namespace Arabica
+{
+namespace SAX2DOM
+{
+
+template<class stringT, class string_adaptorT>
+class DocumentType : public Arabica::SimpleDOM::DocumentTypeImpl<stringT, string_adaptorT>
+{
+    typedef Arabica::SimpleDOM::DocumentTypeImpl<stringT, string_adaptorT> BaseDT;
+  public:
+    DocumentType(const stringT& qualifiedName,
+                 const stringT& publicId,
+                 const stringT& systemId) :
+      BaseDT(qualifiedName, publicId, systemId)
+    {
+    } // DocumentType
+
+    virtual ~DocumentType() { }
+
+    //////////////////////////////////////////////////////
+    // DOM::DOMImplementation extensions
+    void addEntity(Arabica::SimpleDOM::EntityImpl<stringT, string_adaptorT>* entity)
+    {
+      BaseDT::addEntity(entity);
+    } // addEntity
+
+    void addNotation(Arabica::SimpleDOM::NotationImpl<stringT, string_adaptorT>* notation)
+    {
+      BaseDT::addNotation(notation);
+    } // addNotation
+
+    void addElement(const stringT& name)
+    {
+      BaseDT::addElement(new Arabica::SimpleDOM::ElementImpl<stringT, string_adaptorT>(BaseDT::ownerDoc_, name));
+    } // addElement
+
+    void addDefaultAttr(const stringT& elementName, const stringT& attributeName, const stringT& attributeValue)
+    {
+      Arabica::SimpleDOM::ElementImpl<stringT, string_adaptorT>* elem = dynamic_cast<Arabica::SimpleDOM::ElementImpl<stringT, string_adaptorT>*>(BaseDT::getElements()->getNamedItem(elementName));
+      if(elem == 0)
+      {
+        addElement(elementName);
+        elem = dynamic_cast<Arabica::SimpleDOM::ElementImpl<stringT, string_adaptorT>*>(BaseDT::getElements()->getNamedItem(elementName));
+      }
+      // the namespaces of these prefixes are fixed
+      const bool isXmlns = attributeName == string_adaptorT::construct_from_utf8("xmlns") ||
+                           string_adaptorT::find(attributeName, string_adaptorT::construct_from_utf8("xmlns:")) == 0;
+      const bool isXml = string_adaptorT::find(attributeName, string_adaptorT::construct_from_utf8("xml:")) == 0;
+      Arabica::SimpleDOM::AttrImpl<stringT, string_adaptorT>* attr = (isXmlns || isXml) ?
+          new Arabica::SimpleDOM::AttrNSImpl<stringT, string_adaptorT>(BaseDT::ownerDoc_, 
+              isXml ? string_adaptorT::construct_from_utf8("http://www.w3.org/XML/1998/namespace") : stringT(), 
+              isXml, attributeName) :
+          new Arabica::SimpleDOM::AttrImpl<stringT, string_adaptorT>(BaseDT::ownerDoc_, attributeName);
+      attr->setValue(attributeValue);
+      attr->setSpecified(false);
+      elem->setAttributeNode(attr);
+    } // addDefaultAttr
+
+    void addElementId(const stringT& elementName)
+    {
+      BaseDT::addElementId(elementName);
+    } // addElementId
+}; // class DOMImplementation
+
+} // namespace SAX2DOM
+} // namespace Arabica
+
+#endif
+// end of file
diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index b5a1e31..054243c 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -116,7 +116,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
                                        qualifiedName);
       a->setValue(value);
       a->setOwnerElement(ownerElement_);
-      disowned(NamedNodeMapImplT::setNamedItemNS(a));
+      disowned(putNS(a));
     } // setAttributeNS
 
     void removeAttributeNS(const stringT& namespaceURI, const stringT& localName)    
@@ -143,7 +143,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       checkNotInUse(attr);
       NamedNodeMapImplT::checkOwnerDocument(attr);
       attr->setOwnerElement(ownerElement_);
-      return disowned(NamedNodeMapImplT::setNamedItemNS(newAttr));
+      return disowned(putNS(attr));
     } // setNamedItem
 
     bool hasAttribute(const stringT& name) const    
@@ -177,6 +177,25 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       return attr;
     } // disowned
 
+    // DTD defaults know nothing of namespaces, so the default for p:x is the same attribute as p:x in its namespace
+    static bool isPrefixed(const DOMNode_implT* attr)
+    {
+      return string_adaptorT::find(attr->getNodeName(), string_adaptorT::construct_from_utf8(":")) != string_adaptorT::npos();
+    } // isPrefixed
+
+    bool isSetWithNamespace(const DOMNode_implT* defaultAttr) const
+    {
+      return string_adaptorT::empty(defaultAttr->getLocalName()) && isPrefixed(defaultAttr) && hasAttribute(defaultAttr->getNodeName());
+    } // isSetWithNamespace
+
+    DOMNode_implT* putNS(AttrImplT* attr)
+    {
+      DOMAttr_implT* named = isPrefixed(attr) ? getAttributeNode(attr->getNodeName()) : 0;
+      if(named && !named->getSpecified() && string_adaptorT::empty(named->getLocalName()))
+        return NamedNodeMapImplT::setNamedItem(attr);
+      return NamedNodeMapImplT::setNamedItemNS(attr);
+    } // putNS
+
     void createDefault(const stringT& name) 
     {
       DOMNamedNodeMap_implT* attrs = getDefaultAttrs();
@@ -207,7 +226,8 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
         for(unsigned int i = 0; i < attrs->getLength(); ++i)
         {
           DOMNode_implT* attr = attrs->item(i);
-          if(getAttributeNodeNS(attr->getNamespaceURI(), attr->getNodeName()) == 0)
+          const stringT& name = string_adaptorT::empty(attr->getLocalName()) ? attr->getNodeName() : attr->getLocalName();
+          if(getAttributeNodeNS(attr->getNamespaceURI(), name) == 0 && !isSetWithNamespace(attr))
             setAttributeNodeNS(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
         }
       } 
-- 
2.43.0


From fbc264d54c9bde1cbccb9818a8ea8bf391e8952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:43 +0000
Subject: [PATCH 064/106] fix: a Document in a static variable was destroyed
 after the DOMImplementation it refers to

---
 include/DOM/Simple/DOMImplementation.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/DOM/Simple/DOMImplementation.hpp b/include/DOM/Simple/DOMImplementation.hpp
index 39d557c..73a39fd 100644
--- a/include/DOM/Simple/DOMImplementation.hpp
+++ b/include/DOM/Simple/DOMImplementation.hpp
@@ -20,8 +20,9 @@ class DOMImplementation
   public:
     static DOM::DOMImplementation<stringT, string_adaptorT> getDOMImplementation()
     {
-      static DOMImplementationImpl<stringT, string_adaptorT> domImpl;
-      return DOM::DOMImplementation<stringT, string_adaptorT>(&domImpl);
+      // never destroyed, as Documents which are themselves static go back to it as they are destroyed
+      static DOMImplementationImpl<stringT, string_adaptorT>* const domImpl = new DOMImplementationImpl<stringT, string_adaptorT>();
+      return DOM::DOMImplementation<stringT, string_adaptorT>(domImpl);
     } // getDOMImplementation
 
   private:
-- 
2.43.0


From e9ab9686d618103229e3f227458c59ebcec5597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:58 +0000
Subject: [PATCH 065/106] fix: a warning in the content of an XSLT variable was
 sent to a null sink

---
 include/XSLT/impl/xslt_execution_context.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 96b48a6..5ef9df4 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -60,6 +60,8 @@ public:
     to_msg_(false)
   {
 		xpathContext_.setVariableResolver(stack_);
+    sink_.set_warning_sink(message_sink_.asOutput());
+    message_sink_.asOutput().set_warning_sink(message_sink_.asOutput());
     xpathContext_.setCurrentNode(rhs.xpathContext().currentNode());
     xpathContext_.setPosition(rhs.xpathContext().position());
     xpathContext_.setLast(rhs.xpathContext().last());
-- 
2.43.0


From fdf0de8d047a354eae1b54c1e3c0fd1af263f459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:26 +0000
Subject: [PATCH 066/106] fix: XSLT result elements and attributes could end up
 in the wrong namespace when prefixes were declared again or undeclared

---
 include/XSLT/impl/xslt_namespace_stack.hpp | 104 ++++++++++++++-------
 include/XSLT/impl/xslt_output.hpp          |  31 ++----
 2 files changed, 78 insertions(+), 57 deletions(-)

diff --git a/include/XSLT/impl/xslt_namespace_stack.hpp b/include/XSLT/impl/xslt_namespace_stack.hpp
index 79516b1..5b054be 100644
--- a/include/XSLT/impl/xslt_namespace_stack.hpp
+++ b/include/XSLT/impl/xslt_namespace_stack.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XSLT_NAMESPACE_STACK_HPP
 
 #include <map>
+#include <set>
 #include <vector>
  
 #include "handler/xslt_constants.hpp"
@@ -21,61 +22,94 @@ public:
   NamespaceStack() :
     autoNs_(1)
   {
-    prefixStack_.push_back(Scope());
-    uriStack_.push_back(Scope());
+    scopes_.push_back(ElementScope());
+    scopes_.back().declared[SC::xml] = SC::xml_uri;
   } // NamespaceStack
 
   void pushScope()
   {
-    prefixStack_.push_back(Scope());
-    uriStack_.push_back(Scope());
+    scopes_.push_back(ElementScope());
   } // pushScope
 
   void popScope()
   {
-    prefixStack_.pop_back();
-    uriStack_.pop_back();
+    scopes_.pop_back();
   } // popScope
 
-  void declareNamespace(const string_type& given_prefix, const string_type& namespaceURI, bool attr = false)
+  // the prefix for a name on the current element, declared if it has to be
+  string_type declareNamespace(const string_type& given_prefix, const string_type& namespaceURI, bool attr = false)
   {
-    if(findPrefix(namespaceURI) != EMPTY_STRING)
-      return;
-
-    bool remap = (attr && string_adaptor::empty(given_prefix)) || (given_prefix == SC::xmlns);
-
-    string_type prefix = !remap ? given_prefix : autoNamespacePrefix();
+    string_type prefix;
+    if(string_adaptor::empty(namespaceURI))
+    {
+      if(attr)
+        return prefix;
+    }
+    else if(!findPrefix(given_prefix, namespaceURI, attr, prefix))
+    {
+      prefix = given_prefix;
+      while((attr && string_adaptor::empty(prefix)) || (prefix == SC::xmlns) || (prefix == SC::xml) || isUsed(prefix))
+        prefix = autoNamespacePrefix();
+    }
 
-    prefixStack_.back()[prefix] = namespaceURI;
-    uriStack_.back()[namespaceURI] = prefix;
+    if(findURI(prefix) != namespaceURI)
+      scopes_.back().declared[prefix] = namespaceURI;
+    scopes_.back().used.insert(prefix);
+    return prefix;
   } // declareNamespace
 
-  const string_type& findURI(const string_type& prefix) const
+  // a namespace node of the current element, unless that prefix means something else here
+  void addNamespace(const string_type& prefix, const string_type& namespaceURI)
   {
-    return searchStack(prefixStack_, prefix);
-  } // findURI
+    if(isUsed(prefix) || (prefix == SC::xml) || (findURI(prefix) == namespaceURI))
+      return;
+    scopes_.back().declared[prefix] = namespaceURI;
+    scopes_.back().used.insert(prefix);
+  } // addNamespace
 
-  const string_type& findPrefix(const string_type& uri) const
+  string_type findURI(const string_type& prefix) const
   {
-    return searchStack(uriStack_, uri);
-  } // findPrefix
+    for(typename ScopeStack::const_reverse_iterator ss = scopes_.rbegin(), se = scopes_.rend(); ss != se; ++ss)
+    {
+      typename Scope::const_iterator i = ss->declared.find(prefix);
+      if(i != ss->declared.end())
+        return i->second;
+    }
+    return string_type();
+  } // findURI
 
-  typename Scope::const_iterator begin() { return prefixStack_.back().begin(); }
-  typename Scope::const_iterator end() { return prefixStack_.back().end(); }
+  typename Scope::const_iterator begin() { return scopes_.back().declared.begin(); }
+  typename Scope::const_iterator end() { return scopes_.back().declared.end(); }
 
 private:
-  typedef std::vector<Scope> ScopeStack;
+  struct ElementScope
+  {
+    Scope declared;
+    std::set<string_type> used;
+  }; // struct ElementScope
+  typedef std::vector<ElementScope> ScopeStack;
 
-  const string_type& searchStack(const ScopeStack& stack, const string_type& key) const
+  bool isUsed(const string_type& prefix) const
   {
-    for(typename ScopeStack::const_reverse_iterator ss = stack.rbegin(), se = stack.rend(); ss != se; ss++)
-    {      
-      typename Scope::const_iterator i = ss->find(key);
-      if(i != ss->end())
-        return i->second;
-    }
-    return EMPTY_STRING;
-  } // searchStack
+    return scopes_.back().used.find(prefix) != scopes_.back().used.end();
+  } // isUsed
+
+  // a prefix that already stands for the namespace, the given one if possible
+  bool findPrefix(const string_type& given_prefix, const string_type& uri, bool attr, string_type& prefix) const
+  {
+    prefix = given_prefix;
+    if((!attr || !string_adaptor::empty(prefix)) && (findURI(prefix) == uri))
+      return true;
+
+    for(typename ScopeStack::const_reverse_iterator ss = scopes_.rbegin(), se = scopes_.rend(); ss != se; ++ss)
+      for(typename Scope::const_iterator i = ss->declared.begin(), ie = ss->declared.end(); i != ie; ++i)
+        if((i->second == uri) && (!attr || !string_adaptor::empty(i->first)) && (findURI(i->first) == uri))
+        {
+          prefix = i->first;
+          return true;
+        } // if ...
+    return false;
+  } // findPrefix
 
   string_type autoNamespacePrefix()
   {
@@ -84,9 +118,7 @@ private:
     return string_adaptor::construct(ss.str());
   } // autoNamespacePrefix
 
-  ScopeStack prefixStack_;
-  ScopeStack uriStack_;
-  string_type EMPTY_STRING;
+  ScopeStack scopes_;
   unsigned int autoNs_;
 }; // class NamespaceStack
 
diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index f692d80..935a507 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -65,17 +65,13 @@ public:
     flush_current();
 
     namespaceStack_.pushScope();
-    if(!string_adaptor::empty(namespaceURI))
-      namespaceStack_.declareNamespace(prefix, namespaceURI);
-
-    string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
+    string_type mapped_prefix = namespaceStack_.declareNamespace(prefix, namespaceURI);
 
     element_stack_.push(QName<string_type, string_adaptor>(mapped_prefix, localName, namespaceURI));
 
     atts_.clear();
     pending_element_ = true;
 
-    namespaceStack_.pushScope();
     return true;
   } // start_element
 
@@ -85,7 +81,7 @@ public:
     end_element(en.prefix, en.localName, en.namespaceURI);
   } // end_element
 
-  void end_element(const string_type& /* prefix */, const string_type& localName, const string_type& namespaceURI)
+  void end_element(const string_type& /* prefix */, const string_type& /* localName */, const string_type& namespaceURI)
   {
     if(pop_if_buffering())
       return;
@@ -93,11 +89,8 @@ public:
     flush_current();
 
     if(!text_mode_)
-    {
-      string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
-      do_end_element((!string_adaptor::empty(mapped_prefix)) ? makeName(mapped_prefix, localName) : localName, namespaceURI);
-      element_stack_.pop();
-    } // end_element
+      do_end_element(element_stack_.top().qname, namespaceURI);
+    element_stack_.pop();
 
     namespaceStack_.popScope();
   } // end_element
@@ -127,10 +120,7 @@ public:
       return;
     } // if ...
 
-    if(!string_adaptor::empty(namespaceURI))
-      namespaceStack_.declareNamespace(prefix, namespaceURI, true);
-
-    string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
+    string_type mapped_prefix = namespaceStack_.declareNamespace(prefix, namespaceURI, true);
     string_type qName = (!string_adaptor::empty(mapped_prefix)) ? makeName(mapped_prefix, localName) : localName;
 
     atts_.addOrReplaceAttribute(namespaceURI,
@@ -138,7 +128,7 @@ public:
                                 qName,
                                 string_adaptor::empty_string(),
                                 string_adaptor::empty_string());
-    pending_attribute_ = atts_.getIndex(qName);
+    pending_attribute_ = atts_.getIndex(namespaceURI, localName);
   } // start_attribute
 
   void end_attribute()
@@ -332,13 +322,12 @@ private:
       return;
 
     if(text_mode_)
+    {
+      pending_element_ = false;
       return;
+    } // if ...
 
-    bool want_decs = want_namespace_declarations();
-    if(want_decs)
-      addNamespaceDeclarations();
-    namespaceStack_.popScope();
-    if(want_decs)
+    if(want_namespace_declarations())
       addNamespaceDeclarations();
 
     do_start_element(element_stack_.top().qname, element_stack_.top().namespaceURI, atts_);
-- 
2.43.0


From 37bc5795ec63967cce7dfb86bb111819b5137ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:26 +0000
Subject: [PATCH 067/106] fix: xsl:copy and xsl:copy-of could write an
 attribute twice, without its namespace, or into an attribute being written

---
 include/XSLT/impl/xslt_copy.hpp   | 27 +++++++++++++++++++++------
 include/XSLT/impl/xslt_output.hpp | 16 ++++------------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index 1e839fd..3b5083c 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -27,10 +27,14 @@ protected:
     switch(node.getNodeType())
     {
     case DOM::Node_base::ATTRIBUTE_NODE:
-      context.sink().add_attribute(node.getNamespaceURI(),
-                                   node.getLocalName(),
-                                   node.getNodeName(),
-                                   node.getNodeValue());
+      if(is_declaration(node))
+      {
+        context.sink().add_namespace((node.getNodeName() == SC::xmlns) ? string_type() : node.getLocalName(), node.getNodeValue());
+        break;
+      } // if ...
+      context.sink().start_attribute(node.getPrefix(), local_name(node), node.getNamespaceURI());
+      context.sink().characters(node.getNodeValue());
+      context.sink().end_attribute();
       break;
     case DOM::Node_base::COMMENT_NODE:
       context.sink().start_comment();
@@ -42,10 +46,10 @@ protected:
       process_content(node, context);
       break;
     case DOM::Node_base::ELEMENT_NODE:
-      if(context.sink().start_element(node.getPrefix(), node.getLocalName(), node.getNamespaceURI()))
+      if(context.sink().start_element(node.getPrefix(), local_name(node), node.getNamespaceURI()))
       {
         process_content(node, context);
-        context.sink().end_element(node.getPrefix(), node.getLocalName(), node.getNamespaceURI());
+        context.sink().end_element(node.getPrefix(), local_name(node), node.getNamespaceURI());
       }
       break;
     case DOM::Node_base::PROCESSING_INSTRUCTION_NODE:
@@ -63,6 +67,17 @@ protected:
   virtual void process_content(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const = 0;
 
 private:
+  static bool is_declaration(const DOM::Node<string_type, string_adaptor>& attr)
+  {
+    return (attr.getNodeName() == SC::xmlns) || (attr.getPrefix() == SC::xmlns);
+  } // is_declaration
+
+  // nodes made by createElement and setAttribute don't have a local name
+  static string_type local_name(const DOM::Node<string_type, string_adaptor>& node)
+  {
+    return string_adaptor::empty(node.getLocalName()) ? node.getNodeName() : node.getLocalName();
+  } // local_name
+
   Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> namespace_select_;
 }; // class Copy_base
 
diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index 935a507..07a259e 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -144,19 +144,11 @@ public:
     pending_attribute_ = -1;
   } // end_attribute
 
-  void add_attribute(const string_type& uri,
-            		     const string_type& localName,
-		                 const string_type& qName,
-		                 const string_type& value) 
+  void add_namespace(const string_type& prefix, const string_type& namespaceURI)
   {
-    if(!pending_element_)
-    {  
-      warning(string_adaptor::construct_from_utf8("WARNING: Cannot write attribute, no open element"));
-      return;
-    } // if ...
-
-    atts_.addAttribute(uri, localName, qName, string_adaptor::empty_string(), value); 
-  } // add_attribute
+    if(!buffering_ && pending_element_)
+      namespaceStack_.addNamespace(prefix, namespaceURI);
+  } // add_namespace
 
   void characters(const string_type& ch)
   {
-- 
2.43.0


From cca5e88754a2433cf2cb4911cbd9010db5e6426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:26 +0000
Subject: [PATCH 068/106] fix: empty text closed the start tag in XSLT, losing
 the attributes that follow

---
 include/XSLT/impl/xslt_output.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index 07a259e..cc0a9a8 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -152,6 +152,9 @@ public:
 
   void characters(const string_type& ch)
   {
+    if(string_adaptor::empty(ch))
+      return;
+
     if(buffering_)
     {
       if(buffering_ == 1)
-- 
2.43.0


From e3e9dbab2aa55790675477770bb7df544ba9be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 069/106] fix: position() and current() in XSLT weren't put
 back after a nested xsl:for-each or xsl:apply-templates

---
 include/XSLT/impl/xslt_execution_context.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 5ef9df4..46388c9 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -256,21 +256,33 @@ class LastFrame
 public:
   LastFrame(ExecutionContext<string_type, string_adaptor>& context, int last) : context_(context) 
   { 
-    oldLast_ = context_.setLast(last);
+    save();
+    context_.setLast(last);
   } // LastFrame
 
   LastFrame(ExecutionContext<string_type, string_adaptor>& context, size_t last) : context_(context) 
   { 
-    oldLast_ = context_.setLast(static_cast<int>(last));
+    save();
+    context_.setLast(static_cast<int>(last));
   } // LastFrame
 
   ~LastFrame()
   {
+    context_.setPosition(oldCurrent_, oldPosition_);
     context_.setLast(oldLast_);
   } // ~LastFrame
 
 private:
+  void save()
+  {
+    oldCurrent_ = context_.xpathContext().currentNode();
+    oldPosition_ = context_.xpathContext().position();
+    oldLast_ = context_.xpathContext().last();
+  } // save
+
   ExecutionContext<string_type, string_adaptor>& context_;
+  DOM::Node<string_type, string_adaptor> oldCurrent_;
+  int oldPosition_;
   int oldLast_;
 
   LastFrame(const LastFrame&);
-- 
2.43.0


From c01212f0334c9023215849b5317f10b5e49016fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 070/106] fix: there was no current node while XSLT global
 variables were evaluated, key() and current() crashed

---
 include/XSLT/impl/xslt_compiled_stylesheet.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 86f1763..c9cf81a 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -105,6 +105,8 @@ public:
     ExecutionContext<string_type, string_adaptor> context(*this, output_.get(), *error_output_);
 
     // set up variables and so forth
+    LastFrame<string_type, string_adaptor> last(context, 1);
+    context.setPosition(initialNode, 1);
     for(ParamListIterator pi = params_.begin(), pe = params_.end(); pi != pe; ++pi)
       (*pi)->declare(context);
     for(VariableDeclListIterator ci = topLevelVars_.begin(), ce = topLevelVars_.end(); ci != ce; ++ci)
-- 
2.43.0


From 2647a757c74e8b3c3cae2d3704ed70e3f5dcfbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 071/106] fix: xsl:apply-imports used the mode and precedence
 of whichever template had run last

---
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    | 15 +++----
 include/XSLT/impl/xslt_execution_context.hpp  | 40 +++++++++++++++++++
 2 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index c9cf81a..a95397f 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -230,14 +230,14 @@ public:
 
   void applyImports(const DOMNode& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
-    doApplyTemplates(node, context, current_mode_, current_generation_);
+    doApplyTemplates(node, context, context.currentMode(), context.currentGeneration());
   } // applyImports
 
 private:
   void doApplyTemplates(const DOMNode& node, 
                         ExecutionContext<string_type, string_adaptor>& context, 
-                        const string_type& mode, 
-                        const Precedence& generation) const
+                        const string_type mode,
+                        const Precedence generation) const
   {
     StackFrame<string_type, string_adaptor> frame(context);
 
@@ -247,12 +247,12 @@ private:
         lower_precedences.push_back(ts->first);
     std::sort(lower_precedences.rbegin(), lower_precedences.rend());
 
-    current_mode_ = mode;
+    RuleFrame<string_type, string_adaptor> rule(context, mode, generation);
 
     for(std::vector<Precedence>::const_iterator p = lower_precedences.begin(), pe = lower_precedences.end(); p != pe; ++p)
     { 
-      current_generation_ = *p;
-      ModeTemplates ts = templates_.find(current_generation_)->second;
+      context.setCurrentRule(mode, *p);
+      const ModeTemplates& ts = templates_.find(*p)->second;
       ModeTemplatesIterator mt = ts.find(mode);
       if(mt != ts.end())
       {
@@ -361,9 +361,6 @@ private:
   DeclaredKeys<string_type, string_adaptor> keys_;
   ParamList params_;
 
-  mutable string_type current_mode_;
-  mutable Precedence current_generation_;
-
   typename Output<string_type, string_adaptor>::Settings output_settings_;
   typename Output<string_type, string_adaptor>::CDATAElements output_cdata_elements_;
   SinkHolder<string_type, string_adaptor> output_;
diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 46388c9..a34e136 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -65,6 +65,7 @@ public:
     xpathContext_.setCurrentNode(rhs.xpathContext().currentNode());
     xpathContext_.setPosition(rhs.xpathContext().position());
     xpathContext_.setLast(rhs.xpathContext().last());
+    setCurrentRule(rhs.current_mode_, rhs.current_generation_);
   } // ExecutionContext
 
   const CompiledStylesheet<string_type, string_adaptor>& stylesheet() const { return stylesheet_; }
@@ -97,6 +98,15 @@ public:
     xpathContext_.setPosition(pos);
   } // setPosition
 
+  // the mode and import precedence of the current template rule
+  const string_type& currentMode() const { return current_mode_; }
+  const Precedence& currentGeneration() const { return current_generation_; }
+  void setCurrentRule(const string_type& mode, const Precedence& generation)
+  {
+    current_mode_ = mode;
+    current_generation_ = generation;
+  } // setCurrentRule
+
   int setLast(int last)
   {
     int old = xpathContext_.last();
@@ -116,6 +126,8 @@ private:
   Output<string_type, string_adaptor>& sink_;
   StreamSink<string_type, string_adaptor> message_sink_;
   int to_msg_;
+  string_type current_mode_;
+  Precedence current_generation_;
 
   friend class StackFrame<string_type, string_adaptor> ;
   friend class ChainStackFrame<string_type, string_adaptor> ;
@@ -249,6 +261,34 @@ private:
   bool operator==(const ChainStackFrame&) const;
 }; // class ChainStackFrame
 
+///////////////////////////
+template<class string_type, class string_adaptor>
+class RuleFrame
+{
+public:
+  RuleFrame(ExecutionContext<string_type, string_adaptor>& context, const string_type& mode, const Precedence& generation) :
+    context_(context),
+    oldMode_(context.currentMode()),
+    oldGeneration_(context.currentGeneration())
+  {
+    context_.setCurrentRule(mode, generation);
+  } // RuleFrame
+
+  ~RuleFrame()
+  {
+    context_.setCurrentRule(oldMode_, oldGeneration_);
+  } // ~RuleFrame
+
+private:
+  ExecutionContext<string_type, string_adaptor>& context_;
+  const string_type oldMode_;
+  const Precedence oldGeneration_;
+
+  RuleFrame(const RuleFrame&);
+  RuleFrame& operator=(const RuleFrame&);
+  bool operator==(const RuleFrame&) const;
+}; // class RuleFrame
+
 ///////////////////////////
 template<class string_type, class string_adaptor>
 class LastFrame
-- 
2.43.0


From b5eec0789d32e12788edfc1eeaf3663a08f74722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 072/106] fix: variables declared inside xsl:copy, xsl:comment,
 xsl:processing-instruction, xsl:message or the content of a variable weren't
 local to it

---
 include/XSLT/impl/xslt_comment.hpp                | 1 +
 include/XSLT/impl/xslt_copy.hpp                   | 1 +
 include/XSLT/impl/xslt_message.hpp                | 1 +
 include/XSLT/impl/xslt_processing_instruction.hpp | 1 +
 include/XSLT/impl/xslt_variable_impl.hpp          | 1 +
 5 files changed, 5 insertions(+)

diff --git a/include/XSLT/impl/xslt_comment.hpp b/include/XSLT/impl/xslt_comment.hpp
index 014d6a1..91aac9d 100644
--- a/include/XSLT/impl/xslt_comment.hpp
+++ b/include/XSLT/impl/xslt_comment.hpp
@@ -22,6 +22,7 @@ public:
   {
     context.sink().start_comment();
 
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
 
     context.sink().end_comment();
diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index 3b5083c..1afe00e 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -103,6 +103,7 @@ public:
 protected:
   virtual void process_content(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
   } // process_content
 
diff --git a/include/XSLT/impl/xslt_message.hpp b/include/XSLT/impl/xslt_message.hpp
index 15379ef..a4f05de 100644
--- a/include/XSLT/impl/xslt_message.hpp
+++ b/include/XSLT/impl/xslt_message.hpp
@@ -25,6 +25,7 @@ public:
   virtual void execute(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
     RedirectionFrame toMessageSink(context);
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
 
     if(terminate_)
diff --git a/include/XSLT/impl/xslt_processing_instruction.hpp b/include/XSLT/impl/xslt_processing_instruction.hpp
index 0e61490..41948af 100644
--- a/include/XSLT/impl/xslt_processing_instruction.hpp
+++ b/include/XSLT/impl/xslt_processing_instruction.hpp
@@ -30,6 +30,7 @@ public:
     validate_name(name);
 
     context.sink().start_processing_instruction(name);
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
     context.sink().end_processing_instruction();
   } // execute
diff --git a/include/XSLT/impl/xslt_variable_impl.hpp b/include/XSLT/impl/xslt_variable_impl.hpp
index 529dde5..5db6069 100644
--- a/include/XSLT/impl/xslt_variable_impl.hpp
+++ b/include/XSLT/impl/xslt_variable_impl.hpp
@@ -43,6 +43,7 @@ public:
     if(select_)
       return select_->evaluate(node, context.xpathContext());
 
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
 
     if(sink.node() == 0)
-- 
2.43.0


From 4495a6de3ed2af66bd3f2895c0fb76b13f361e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 073/106] fix: a parameter being passed was also passed by the
 content of the ones after it, and a passed top-level parameter declared in
 two modules was an error

---
 include/XSLT/impl/xslt_execution_context.hpp | 19 ++++++++++++-------
 include/XSLT/impl/xslt_variable_stack.hpp    | 13 ++++++++-----
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index a34e136..86564f0 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -89,6 +89,7 @@ public:
   void declareParam(const DOM::Node<string_type, string_adaptor>& node, const Variable_declaration<string_type, string_adaptor>& param); 
   void declareVariable(const DOM::Node<string_type, string_adaptor>& node, const Variable_declaration<string_type, string_adaptor>& variable); 
   void freezeTopLevel();
+  void forgetPassedParams() { stack_.forgetPassedParams(); }
   void injectGlobalScope(const typename ScopeType<string_type, string_adaptor>::Scope& scope);
 
   void setPosition(const DOM::Node<string_type, string_adaptor>& current, size_t pos) { setPosition(current, static_cast<int>(pos)); }
@@ -143,9 +144,10 @@ public:
 
   static Variable_instance_ptr create(const Variable_declaration<string_type, string_adaptor>& var, 
                                       const DOM::Node<string_type, string_adaptor>& node,
-                                      ExecutionContext<string_type, string_adaptor>& context)
+                                      ExecutionContext<string_type, string_adaptor>& context,
+                                      const Variable_instance_ptr& passed = Variable_instance_ptr())
   {
-    return Variable_instance_ptr(new VariableClosure(var, node, context));
+    return Variable_instance_ptr(new VariableClosure(var, node, context, passed));
   } // create
 
   virtual const string_type& name() const { return var_.name(); }
@@ -154,7 +156,7 @@ public:
   virtual Arabica::XPath::XPathValue<string_type, string_adaptor> value() const 
   {
     if(!value_)
-      value_ = var_.value(node_, context_, sink_);
+      value_ = passed_ ? passed_->value() : var_.value(node_, context_, sink_);
     return value_;
   } // value
 
@@ -166,18 +168,22 @@ public:
 private:
   VariableClosure(const Variable_declaration<string_type, string_adaptor>& var, 
                   const DOM::Node<string_type, string_adaptor>& node, 
-                  ExecutionContext<string_type, string_adaptor>& context) :
+                  ExecutionContext<string_type, string_adaptor>& context,
+                  const Variable_instance_ptr& passed) :
       var_(var),
       sink_(),
       node_(node),
-      context_(sink_, context)
+      context_(sink_, context),
+      passed_(passed)
   {
+    context_.forgetPassedParams();
   } // VariableClosure
 
   const Variable_declaration<string_type, string_adaptor>& var_;
   mutable DOMSink<string_type, string_adaptor> sink_;
   const DOM::Node<string_type, string_adaptor> node_;
   mutable ExecutionContext<string_type, string_adaptor> context_;
+  const Variable_instance_ptr passed_;
   mutable Arabica::XPath::XPathValue<string_type, string_adaptor> value_;
 
   VariableClosure();
@@ -208,8 +214,7 @@ void ExecutionContext<string_type, string_adaptor>::unpassParam(const string_typ
 template<class string_type, class string_adaptor>
 void ExecutionContext<string_type, string_adaptor>::declareParam(const DOM::Node<string_type, string_adaptor>& node, const Variable_declaration<string_type, string_adaptor>& param) 
 {
-  if(!stack_.findPassedParam(param.name()))
-    stack_.declareParam(VariableClosure<string_type, string_adaptor>::create(param, node, *this)); 
+  stack_.declareParam(VariableClosure<string_type, string_adaptor>::create(param, node, *this, stack_.findPassedParam(param.name())));
 } // declareParam
 
 template<class string_type, class string_adaptor>
diff --git a/include/XSLT/impl/xslt_variable_stack.hpp b/include/XSLT/impl/xslt_variable_stack.hpp
index c896a3a..485e156 100644
--- a/include/XSLT/impl/xslt_variable_stack.hpp
+++ b/include/XSLT/impl/xslt_variable_stack.hpp
@@ -103,14 +103,17 @@ public:
     params_.back().erase(name);
   } // unpassParam
 
-  bool findPassedParam(const string_type& name)
+  // parameters being passed aren't visible while the others are worked out
+  void forgetPassedParams()
+  {
+    params_.back().clear();
+  } // forgetPassedParams
+
+  Variable_instance_ptr findPassedParam(const string_type& name)
   {
     typename ScopeStack::reverse_iterator p = params_.rbegin()+1;    
     typename Scope::iterator i = p->find(name);
-    if(i == p->end())
-      return false;
-    declareVariable(i->second);
-    return true;
+    return (i != p->end()) ? i->second : Variable_instance_ptr();
   } // findPassedParam
 
   void declareParam(Variable_instance_ptr param)
-- 
2.43.0


From 88e8e79eb2c8a4e501b1499c997b80ff1b0c0d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:51 +0000
Subject: [PATCH 074/106] fix: xsl:sort evaluated its keys with position() 1
 and another node's last(), and left equal nodes of a reverse axis in reverse
 order

---
 include/XSLT/impl/xslt_sort.hpp | 52 +++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/include/XSLT/impl/xslt_sort.hpp b/include/XSLT/impl/xslt_sort.hpp
index b02aa77..1a5377a 100644
--- a/include/XSLT/impl/xslt_sort.hpp
+++ b/include/XSLT/impl/xslt_sort.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XSLT_SORT_HPP
 
 #include <algorithm>
+#include <vector>
 
 namespace Arabica
 {
@@ -15,6 +16,7 @@ class Sort
 public:
   typedef Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> XPathExpressionPtr;
   typedef DOM::Node<string_type, string_adaptor> DOMNode;
+  typedef std::pair<DOMNode, size_t> SortNode; // and its position before sorting
 
   Sort(const XPathExpressionPtr& select,
        const XPathExpressionPtr& lang, //="language-code"
@@ -64,7 +66,7 @@ public:
       sub_sort_->set_context(node, context);
   } // set_context
 
-  bool operator()(const DOMNode& n1, const DOMNode& n2) const
+  bool operator()(const SortNode& n1, const SortNode& n2) const
   {
     return (this->*sort_fn_)(n1, n2);
   } // operator()
@@ -89,12 +91,12 @@ private:
 
   } // validate
 
-  typedef bool(Sort::*sortFn)(const DOMNode& n1, const DOMNode& n2) const;
-  bool numberAscending(const DOMNode& n1, const DOMNode& n2) const
+  typedef bool(Sort::*sortFn)(const SortNode& n1, const SortNode& n2) const;
+  bool numberAscending(const SortNode& n1, const SortNode& n2) const
   {
     return numberSort(n1, n2, nanAscending, std::less<double>());
   } // numberAscending
-  bool numberDescending(const DOMNode& n1, const DOMNode& n2) const
+  bool numberDescending(const SortNode& n1, const SortNode& n2) const
   {
     return numberSort(n1, n2, nanDescending, std::greater<double>());
   } // numberDescending
@@ -107,8 +109,8 @@ private:
     return !nan1;
   } // nanDescending
   template<class NanCompare, class NumberCompare>
-  bool numberSort(const DOMNode& n1, 
-                  const DOMNode& n2, 
+  bool numberSort(const SortNode& n1, 
+                  const SortNode& n2, 
                   NanCompare nanCompare, 
                   NumberCompare compare) const
   {
@@ -126,17 +128,17 @@ private:
 
     return compare(v1, v2);
   } // numberSort
-  bool stringAscending(const DOMNode& n1, const DOMNode& n2) const
+  bool stringAscending(const SortNode& n1, const SortNode& n2) const
   {
     return stringSort(n1, n2, std::less<string_type>());
   } // stringAscending
-  bool stringDescending(const DOMNode& n1, const DOMNode& n2) const
+  bool stringDescending(const SortNode& n1, const SortNode& n2) const
   {
     return stringSort(n1, n2, std::greater<string_type>());
   } // stringAscending
   template<class StringCompare>
-  bool stringSort(const DOMNode& n1, 
-                  const DOMNode& n2, 
+  bool stringSort(const SortNode& n1, 
+                  const SortNode& n2, 
                   StringCompare compare) const
   {
     string_type v1 = grabAsString(n1);
@@ -148,15 +150,15 @@ private:
     return compare(v1, v2);
   } // stringSort
 
-  string_type grabAsString(const DOMNode& n) const
+  string_type grabAsString(const SortNode& n) const
   {
-    context_->setPosition(n, 1);
-    return select_->evaluateAsString(n, context_->xpathContext());
+    context_->setPosition(n.first, n.second);
+    return select_->evaluateAsString(n.first, context_->xpathContext());
   } // grabAsString
-  double grabAsNumber(const DOMNode& n) const
+  double grabAsNumber(const SortNode& n) const
   {
-    context_->setPosition(n, 1);
-    return select_->evaluateAsNumber(n, context_->xpathContext());
+    context_->setPosition(n.first, n.second);
+    return select_->evaluateAsNumber(n.first, context_->xpathContext());
   } // grabAsString
 
   XPathExpressionPtr select_;
@@ -177,6 +179,7 @@ class Sortable
 {
 public:
   typedef Sort<string_type, string_adaptor> SortT;
+  typedef typename SortT::SortNode SortNode;
   typedef DOM::Node<string_type, string_adaptor> DOMNode;
   typedef Arabica::XPath::NodeSet<string_type, string_adaptor> NodeSet;
 
@@ -195,15 +198,20 @@ protected:
             NodeSet& nodes, 
             ExecutionContext<string_type, string_adaptor>& context) const
   {
+    if(!nodes.forward())
+      nodes.to_document_order();
     if(!sort_)
-    {
-      if(!nodes.forward())
-        nodes.to_document_order();
       return;
-    }
 
     sort_->set_context(node, context);
-    std::stable_sort(nodes.begin(), nodes.end(), SortP(*sort_));
+
+    LastFrame<string_type, string_adaptor> last(context, nodes.size());
+    std::vector<SortNode> sorted;
+    for(size_t n = 0, e = nodes.size(); n != e; ++n)
+      sorted.push_back(SortNode(nodes[n], n+1));
+    std::stable_sort(sorted.begin(), sorted.end(), SortP(*sort_));
+    for(size_t n = 0, e = sorted.size(); n != e; ++n)
+      *(nodes.begin() + n) = sorted[n].first;
   } // sort
 
   bool has_sort() const { return sort_ != 0; }
@@ -223,7 +231,7 @@ private:
   struct SortP
   {
     SortP(SortT& sort) : sort_(sort) { }
-    bool operator()(const DOMNode& n1, const DOMNode& n2)
+    bool operator()(const SortNode& n1, const SortNode& n2)
     {
       return sort_(n1, n2);
     } // operator()
-- 
2.43.0


From 9a737a2c801e88defa1f3929b31fe26a63465b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:17 +0000
Subject: [PATCH 075/106] fix: XSLT keys ignored attributes and anything but
 node-sets in use, repeated nodes, looked in the document of the current
 instead of the context node, and remembered documents that were gone

---
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    |  2 +
 include/XSLT/impl/xslt_functions.hpp          |  9 ++-
 include/XSLT/impl/xslt_key.hpp                | 76 +++++++++++++------
 3 files changed, 61 insertions(+), 26 deletions(-)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index a95397f..63ba802 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -102,6 +102,8 @@ public:
     NodeSet ns;
     ns.push_back(initialNode);
 
+    keys_.forget();
+
     ExecutionContext<string_type, string_adaptor> context(*this, output_.get(), *error_output_);
 
     // set up variables and so forth
diff --git a/include/XSLT/impl/xslt_functions.hpp b/include/XSLT/impl/xslt_functions.hpp
index 376fe30..fe8de60 100644
--- a/include/XSLT/impl/xslt_functions.hpp
+++ b/include/XSLT/impl/xslt_functions.hpp
@@ -112,12 +112,13 @@ protected:
 
     XPathValue a1 = baseT::arg(1, context, executionContext);
     if(a1.type() == Arabica::XPath::NODE_SET)
-      return nodeSetUnion(keyClarkName, a1.asNodeSet(), executionContext);
+      return nodeSetUnion(context, keyClarkName, a1.asNodeSet(), executionContext);
 
-    return keys_.lookup(keyClarkName, a1.asString(), executionContext);
+    return keys_.lookup(context, keyClarkName, a1.asString(), executionContext);
   } // doEvaluate
 
-  NodeSet nodeSetUnion(const string_type& keyClarkName, 
+  NodeSet nodeSetUnion(const DOMNode& context,
+                       const string_type& keyClarkName,
                        const NodeSet nodes,
 			      			     const XPathExecutionContext& executionContext) const
   {
@@ -125,7 +126,7 @@ protected:
     for(typename NodeSet::const_iterator n = nodes.begin(), ne = nodes.end(); n != ne; ++n)
     {
       string_type id = Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*n);
-      results.push_back(keys_.lookup(keyClarkName, id, executionContext));
+      results.push_back(keys_.lookup(context, keyClarkName, id, executionContext));
     } // for ...
     results.to_document_order();
     return results;
diff --git a/include/XSLT/impl/xslt_key.hpp b/include/XSLT/impl/xslt_key.hpp
index 2f820ac..8ab4c72 100644
--- a/include/XSLT/impl/xslt_key.hpp
+++ b/include/XSLT/impl/xslt_key.hpp
@@ -1,6 +1,9 @@
 #ifndef ARABICA_XSLT_KEY_HPP
 #define ARABICA_XSLT_KEY_HPP
 
+#include <map>
+#include <set>
+#include <vector>
 #include "xslt_execution_context.hpp"
 
 namespace Arabica
@@ -25,12 +28,12 @@ public:
   {
   } // Key
 
-  NodeSet lookup(const string_type& value, const XPathContext& context) const
+  NodeSet lookup(const DOMNode& node, const string_type& value, const XPathContext& context) const
   {
-    DOMNode doc = XPath::impl::get_owner_document(context.currentNode());
+    DOMNode doc = XPath::impl::get_owner_document(node);
     DocumentNodeMapIterator nm = nodesPerDocument_.find(doc.underlying_impl());
     if(nm == nodesPerDocument_.end())
-      populate(nodesPerDocument_[doc.underlying_impl()], context);
+      populate(nodesPerDocument_[doc.underlying_impl()], doc, context);
 
     const NodeMap& nodes = nodesPerDocument_[doc.underlying_impl()];
     NodeMapIterator f = nodes.find(value);
@@ -40,6 +43,12 @@ public:
     return f->second;
   } // lookup
 
+  // documents may change, or go away, between one execution and the next
+  void forget() const
+  {
+    nodesPerDocument_.clear();
+  } // forget
+
 private:
   typedef std::map<string_type, NodeSet> NodeMap;
   typedef typename NodeMap::const_iterator NodeMapIterator;
@@ -48,27 +57,42 @@ private:
   typedef typename NodeSet::iterator NodeSetIterator;
   typedef typename MatchExprList::const_iterator MatchExprListIterator;
  
-  void populate(NodeMap& nodes, const XPathContext& context) const
+  void populate(NodeMap& nodes, const DOMNode& doc, const XPathContext& context) const
   {
     typedef XPath::AxisEnumerator<string_type, string_adaptor> AxisEnum;
 
-    DOMNode current = XPath::impl::get_owner_document(context.currentNode());
+    XPathContext keyContext(1, context);
+    keyContext.setPosition(1);
 
-    for(AxisEnum ae(current, XPath::DESCENDANT_OR_SELF); *ae != 0; ++ae)
+    for(AxisEnum ae(doc, XPath::DESCENDANT_OR_SELF); *ae != 0; ++ae)
     {
-      DOMNode node = *ae;
-      for(MatchExprListIterator me = matches_.begin(), mee = matches_.end(); me != mee; ++me)
-        if(me->evaluate(node, context))
+      populate(nodes, *ae, keyContext);
+      for(AxisEnum at(*ae, XPath::ATTRIBUTE); *at != 0; ++at)
+        populate(nodes, *at, keyContext);
+    } // for
+  } // populate
+
+  void populate(NodeMap& nodes, const DOMNode& node, XPathContext& context) const
+  {
+    context.setCurrentNode(node);
+    for(MatchExprListIterator me = matches_.begin(), mee = matches_.end(); me != mee; ++me)
+      if(me->evaluate(node, context))
+      {
+        std::set<string_type> ids;
+        XPath::XPathValue<string_type, string_adaptor> use = use_.evaluate(node, context);
+        if(use.type() == XPath::NODE_SET)
         {
-	        NodeSet ids = use_.evaluateAsNodeSet(node, context);
-	        for(NodeSetIterator i = ids.begin(), ie = ids.end(); i != ie; ++i)
-	        {
-	          string_type id = Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*i);
-	          nodes[id].push_back(node);
-	        } // for ...
-          break;
-        } // if ...
-    } // for 
+          const NodeSet& used = use.asNodeSet();
+          for(typename NodeSet::const_iterator i = used.begin(), ie = used.end(); i != ie; ++i)
+            ids.insert(Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*i));
+        }
+        else
+          ids.insert(use.asString());
+
+        for(typename std::set<string_type>::const_iterator id = ids.begin(), ide = ids.end(); id != ide; ++id)
+          nodes[*id].push_back(node);
+        return;
+      } // if ...
   } // populate
 
   MatchExprList matches_;
@@ -97,8 +121,16 @@ public:
     keys_[name].push_back(key);
   } // add_key
 
-  NodeSet lookup(const string_type& name,
-	               const string_type& id,
+  void forget() const
+  {
+    for(KeysIterator i = keys_.begin(), ie = keys_.end(); i != ie; ++i)
+      for(KeyListIterator k = i->second.begin(), ke = i->second.end(); k != ke; ++k)
+        (*k)->forget();
+  } // forget
+
+  NodeSet lookup(const DOM::Node<string_type, string_adaptor>& node,
+                 const string_type& name,
+                 const string_type& id,
                  const XPathContext& context) const
   {
     const KeysIterator k = keys_.find(name);
@@ -106,11 +138,11 @@ public:
       throw SAX::SAXException("No key named '" + string_adaptor::asStdString(name) + "' has been defined.");
     
     if(k->second.size() == 1)
-      return k->second[0]->lookup(id, context);
+      return k->second[0]->lookup(node, id, context);
     
     NodeSet nodes;
     for(KeyListIterator key = k->second.begin(), keye = k->second.end(); key != keye; ++key)    
-      nodes.push_back((*key)->lookup(id, context));
+      nodes.push_back((*key)->lookup(node, id, context));
     nodes.to_document_order();
     return nodes;
   } // lookup
-- 
2.43.0


From ce06cfcc2a28985a24bf48329db5a8c53cf5b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:17 +0000
Subject: [PATCH 076/106] fix: the string value of a result tree fragment was
 that of its first node only, and an empty one was false

---
 include/XSLT/impl/xslt_item.hpp          |  2 ++
 include/XSLT/impl/xslt_sink.hpp          | 16 ++++++++++------
 include/XSLT/impl/xslt_variable_impl.hpp | 11 +++++------
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/XSLT/impl/xslt_item.hpp b/include/XSLT/impl/xslt_item.hpp
index 7f5762d..93e183d 100644
--- a/include/XSLT/impl/xslt_item.hpp
+++ b/include/XSLT/impl/xslt_item.hpp
@@ -29,6 +29,8 @@ protected:
       delete *ci;
   } // ~ItemContainer
 
+  bool has_children() const { return !children_.empty(); }
+
   void execute_children(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
     for(ChildrenIterator ci = children_.begin(), ce = children_.end(); ci != ce; ++ci)
diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 6cf42ab..4cbcf3d 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -363,7 +363,12 @@ public:
   } // ~DOMSink
 
   virtual Output<string_type, string_adaptor>& asOutput() { return *this; }
-  DOM::Node<string_type, string_adaptor> node() const { return documentFrag_; }
+  DOM::Node<string_type, string_adaptor> node() const
+  {
+    if(documentFrag_ == 0)
+      documentFrag_ = document().createDocumentFragment();
+    return documentFrag_;
+  } // node
 
 protected:
   typedef typename Output<string_type, string_adaptor>::Settings Settings;
@@ -438,7 +443,7 @@ protected:
   } // do_end_element
 
 private:
-  DOM::Document<string_type, string_adaptor>& document()
+  DOM::Document<string_type, string_adaptor>& document() const
   {
     if(document_ != 0)
       return document_;
@@ -453,8 +458,7 @@ private:
     if(current_ != 0)
       return current_;
 
-    documentFrag_ = document().createDocumentFragment();
-    current_ = documentFrag_;
+    current_ = node();
     return current_;
   } // current
 
@@ -489,8 +493,8 @@ private:
     out_again_ = true;
   } // outdent
 
-  DOM::Document<string_type, string_adaptor> document_;
-  DOM::DocumentFragment<string_type, string_adaptor> documentFrag_;
+  mutable DOM::Document<string_type, string_adaptor> document_;
+  mutable DOM::DocumentFragment<string_type, string_adaptor> documentFrag_;
   DOM::Node<string_type, string_adaptor> current_;
 
   int indent_;
diff --git a/include/XSLT/impl/xslt_variable_impl.hpp b/include/XSLT/impl/xslt_variable_impl.hpp
index 5db6069..a17efc6 100644
--- a/include/XSLT/impl/xslt_variable_impl.hpp
+++ b/include/XSLT/impl/xslt_variable_impl.hpp
@@ -43,16 +43,15 @@ public:
     if(select_)
       return select_->evaluate(node, context.xpathContext());
 
+    if(!this->has_children())
+      return StringValue::createValue(string_adaptor::empty_string());
+
     ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
 
-    if(sink.node() == 0)
-      return StringValue::createValue(string_adaptor::empty_string());
-
+    // a result tree fragment is like a node-set of its root
     NodeSet nodeset;
-    for(DOMNode n = sink.node().getFirstChild(); n != 0; n = n.getNextSibling())
-      nodeset.push_back(n);
-
+    nodeset.push_back(sink.node());
     return NodeSetValue::createValue(nodeset);
   } // value
 
-- 
2.43.0


From a755fffcab247d9f7e36c0785cc0c01fe92942b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 077/106] fix: an element with only empty text was written as
 an empty element tag

---
 include/XSLT/impl/xslt_output.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index cc0a9a8..92724f6 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -24,6 +24,7 @@ protected:
   Output() :
     buffering_(0),
     pending_element_(false),
+    pending_empty_text_(false),
     pending_text_(false),
     pending_attribute_(-1),
     text_mode_(false),
@@ -71,6 +72,7 @@ public:
 
     atts_.clear();
     pending_element_ = true;
+    pending_empty_text_ = false;
 
     return true;
   } // start_element
@@ -86,7 +88,10 @@ public:
     if(pop_if_buffering())
       return;
 
+    bool only_empty_text = pending_element_ && pending_empty_text_ && !text_mode_;
     flush_current();
+    if(only_empty_text)
+      do_characters(string_adaptor::empty_string());
 
     if(!text_mode_)
       do_end_element(element_stack_.top().qname, namespaceURI);
@@ -153,7 +158,10 @@ public:
   void characters(const string_type& ch)
   {
     if(string_adaptor::empty(ch))
+    {
+      pending_empty_text_ = pending_empty_text_ || !buffering_;
       return;
+    } // if ...
 
     if(buffering_)
     {
@@ -361,6 +369,7 @@ private:
 
   int buffering_;
   bool pending_element_;
+  bool pending_empty_text_;
   bool pending_text_;
   int pending_attribute_;
   bool text_mode_;
-- 
2.43.0


From 521bfc57adc3ae8d1dd0a6254f14b84a88d27b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 078/106] fix: paths could navigate into a result tree fragment

---
 include/XPath/impl/xpath_object.hpp      |  3 +++
 include/XPath/impl/xpath_step.hpp        |  4 ++--
 include/XSLT/impl/xslt_variable_impl.hpp | 29 ++++++++++++++++++++----
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index e85964b..c6532b9 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -331,6 +331,8 @@ public:
   virtual double asNumber() const = 0;
   virtual string_type asString() const = 0;
   virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const = 0;
+  // the nodes that further steps or predicates start from
+  virtual const NodeSet<string_type, string_adaptor>& asLocation() const { return asNodeSet(); }
 
   virtual ValueType type() const = 0;
 
@@ -359,6 +361,7 @@ public:
   double asNumber() const { return ptr_->asNumber(); }
   string_type asString() const { return ptr_->asString(); }
   const NodeSet<string_type, string_adaptor>& asNodeSet() const { return ptr_->asNodeSet(); }
+  const NodeSet<string_type, string_adaptor>& asLocation() const { return ptr_->asLocation(); }
 
   ValueType type() const { return ptr_->type(); }
 
diff --git a/include/XPath/impl/xpath_step.hpp b/include/XPath/impl/xpath_step.hpp
index ac7bb22..68310b9 100644
--- a/include/XPath/impl/xpath_step.hpp
+++ b/include/XPath/impl/xpath_step.hpp
@@ -205,7 +205,7 @@ public:
     if(!baseT::has_predicates())
      return expr_->evaluate(context, executionContext);
 
-    NodeSet<string_type, string_adaptor> ns = expr_->evaluate(context, executionContext).asNodeSet();
+    NodeSet<string_type, string_adaptor> ns = expr_->evaluate(context, executionContext).asLocation();
     ns.to_document_order();
     return XPathValue<string_type, string_adaptor>(new NodeSetValue<string_type, string_adaptor>(baseT::applyPredicates(ns, executionContext)));
   } // evaluate
@@ -561,7 +561,7 @@ public:
     for(typename StepList<string_type, string_adaptor>::const_iterator i = steps_.begin(); i != steps_.end(); ++i)
     {
       XPathValue<string_type, string_adaptor> v = (*i)->evaluate(nodes, executionContext);
-      nodes = v.asNodeSet();
+      nodes = (i + 1 != steps_.end()) ? v.asLocation() : v.asNodeSet();
     } // for ...
 
     nodes.sort();
diff --git a/include/XSLT/impl/xslt_variable_impl.hpp b/include/XSLT/impl/xslt_variable_impl.hpp
index a17efc6..62bb69e 100644
--- a/include/XSLT/impl/xslt_variable_impl.hpp
+++ b/include/XSLT/impl/xslt_variable_impl.hpp
@@ -3,6 +3,7 @@
 
 #include <XPath/XPath.hpp>
 #include <memory>
+#include <stdexcept>
 #include "xslt_item.hpp"
 #include "xslt_execution_context.hpp"
 
@@ -11,6 +12,29 @@ namespace Arabica
 namespace XSLT
 {
 
+// a result tree fragment is like a node-set of its root, except that there's no navigating in it
+template<class string_type, class string_adaptor>
+class ResultTreeFragmentValue : public Arabica::XPath::NodeSetValue<string_type, string_adaptor>
+{
+  typedef Arabica::XPath::NodeSetValue<string_type, string_adaptor> baseT;
+  typedef Arabica::XPath::NodeSet<string_type, string_adaptor> NodeSet;
+
+public:
+  ResultTreeFragmentValue(const NodeSet& root) : baseT(root) { }
+
+  static Arabica::XPath::XPathValue<string_type, string_adaptor> createValue(const DOM::Node<string_type, string_adaptor>& root)
+  {
+    NodeSet nodeset;
+    nodeset.push_back(root);
+    return Arabica::XPath::XPathValue<string_type, string_adaptor>(new ResultTreeFragmentValue(nodeset));
+  } // createValue
+
+  virtual const NodeSet& asLocation() const
+  {
+    throw std::runtime_error("A result tree fragment can't be used as a node-set");
+  } // asLocation
+}; // class ResultTreeFragmentValue
+
 template<class string_type, class string_adaptor>
 class Variable_impl : public ItemContainer<string_type, string_adaptor>, public Variable_declaration<string_type, string_adaptor>
 {
@@ -49,10 +73,7 @@ public:
     ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
 
-    // a result tree fragment is like a node-set of its root
-    NodeSet nodeset;
-    nodeset.push_back(sink.node());
-    return NodeSetValue::createValue(nodeset);
+    return ResultTreeFragmentValue<string_type, string_adaptor>::createValue(sink.node());
   } // value
 
   virtual const Precedence& precedence() const { return precedence_; }
-- 
2.43.0


From ba0b1aa9e4cf26a5ce76f7b7739a20a1c09ba386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 079/106] fix: namespace="" on xsl:element and xsl:attribute
 meant the default namespace

---
 include/XSLT/impl/handler/xslt_attribute_handler.hpp | 4 ++--
 include/XSLT/impl/handler/xslt_element_handler.hpp   | 4 ++--
 include/XSLT/impl/xslt_compilation_context.hpp       | 7 ++++++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_attribute_handler.hpp b/include/XSLT/impl/handler/xslt_attribute_handler.hpp
index d6621fa..6666bc0 100644
--- a/include/XSLT/impl/handler/xslt_attribute_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_attribute_handler.hpp
@@ -28,14 +28,14 @@ protected:
                                      const SAX::Attributes<string_type, string_adaptor>& atts)
   {
     static const AV rules = AV::rule(SC::name, true)
-                               .rule(SC::namespace_, false, string_adaptor::empty_string());
+                               .rule(SC::namespace_, false);
 
     std::map<string_type, string_type> attrs = rules.gather(qName, atts);
 
     Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> name = 
                          baseT::context().xpath_attribute_value_template(attrs[SC::name]);
 
-    if(attrs[SC::namespace_] == string_adaptor::empty_string())
+    if(attrs.find(SC::namespace_) == attrs.end())
       return new Attribute<string_type, string_adaptor>(name, baseT::context().inScopeNamespaces());
 
     return new Attribute<string_type, string_adaptor>(name, baseT::context().xpath_attribute_value_template(attrs[SC::namespace_]));
diff --git a/include/XSLT/impl/handler/xslt_element_handler.hpp b/include/XSLT/impl/handler/xslt_element_handler.hpp
index 08a7aad..d6cd561 100644
--- a/include/XSLT/impl/handler/xslt_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_element_handler.hpp
@@ -28,7 +28,7 @@ protected:
                                    const SAX::Attributes<string_type, string_adaptor>& atts)
   {
     static const AV rules = AV::rule(SC::name, true)
-                               .rule(SC::namespace_, false, string_adaptor::empty_string())
+                               .rule(SC::namespace_, false)
                                .rule(SC::use_attribute_sets, false);
 
     std::map<string_type, string_type> attrs = rules.gather(qName, atts);
@@ -39,7 +39,7 @@ protected:
     if(attrs[SC::use_attribute_sets] != string_adaptor::empty_string())
       throw SAX::SAXException("don't understand use-attribute-sets yet");
     
-    if(attrs[SC::namespace_] == string_adaptor::empty_string())
+    if(attrs.find(SC::namespace_) == attrs.end())
       return new Element<string_type, string_adaptor>(name, 
                          baseT::context().inScopeNamespaces(),
                          attrs[SC::use_attribute_sets]);
diff --git a/include/XSLT/impl/xslt_compilation_context.hpp b/include/XSLT/impl/xslt_compilation_context.hpp
index 51ff879..3cecb1f 100644
--- a/include/XSLT/impl/xslt_compilation_context.hpp
+++ b/include/XSLT/impl/xslt_compilation_context.hpp
@@ -85,7 +85,12 @@ public:
     return xpath_match(match);
   } // xpath_match_no_variables
 
-  XPathExpressionPtrT xpath_attribute_value_template(const string_type& expr) const { return xpath_.compile_attribute_value_template(expr); } 
+  XPathExpressionPtrT xpath_attribute_value_template(const string_type& expr) const 
+  { 
+    if(string_adaptor::empty(expr))
+      return XPathExpressionPtrT(new XPath::StringValue<string_type, string_adaptor>(expr));
+    return xpath_.compile_attribute_value_template(expr); 
+  } // xpath_attribute_value_template
   CompiledStylesheetT& stylesheet() const { return stylesheet_; }
 
   QualifiedNameT processElementQName(const string_type& qName) const
-- 
2.43.0


From 39735d813d0bbf2c6e7b700933b9da03cb3cdc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 080/106] fix: current() was an unknown function until some
 pattern had been compiled

---
 include/XSLT/impl/xslt_compilation_context.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/XSLT/impl/xslt_compilation_context.hpp b/include/XSLT/impl/xslt_compilation_context.hpp
index 3cecb1f..89f2b10 100644
--- a/include/XSLT/impl/xslt_compilation_context.hpp
+++ b/include/XSLT/impl/xslt_compilation_context.hpp
@@ -43,7 +43,7 @@ public:
     parser_(parser),
     stylesheet_(stylesheet),
     autoNs_(1),
-    current_allowed_(false),
+    current_allowed_(true),
     variables_allowed_(true),    
     precedence_(Precedence::InitialPrecedence())
   {
@@ -288,10 +288,11 @@ private:
   class Disallow
   { 
     public:
-      Disallow(bool& allow) : allow_(allow) { allow_ = false; }
-      ~Disallow() { allow_ = true; }
+      Disallow(bool& allow) : allow_(allow), was_(allow) { allow_ = false; }
+      ~Disallow() { allow_ = was_; }
     private:
       bool& allow_;
+      const bool was_;
   }; // DisallowCurrent 
 }; // class CompilationContext
 
-- 
2.43.0


From 66e9c9f8000613425036ca4a5c059c5df5ed3c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:41 +0000
Subject: [PATCH 081/106] fix: the prefix of an attribute in the default
 namespace depended on the one it was created with

---
 include/DOM/io/Stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index 2d3fd4f..3bd2890 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -122,6 +122,9 @@ stringT node_name(std::basic_ostream<charT, traitsT>& stream,
     else
     {
       if(is_attribute)
+      {
+        if(uri_for_prefix(prefix_stack, stringT()).second == namespaceURI) // only declared as the default, which is no use here
+          prefix = stringT();
         while(string_adaptorT::empty(prefix) || 
               current.find(prefix) != current.end() || 
               prefixes_used.find(prefix) != prefixes_used.end())
@@ -130,6 +133,7 @@ stringT node_name(std::basic_ostream<charT, traitsT>& stream,
           os << 'a' << stream.iword(index)++;
           prefix = string_adaptorT::construct_from_utf8(os.str().c_str());
         } // while ...
+      } // if ...
       current[prefix] = namespaceURI;
     } // if ...
     prefixes_used.insert(prefix);
-- 
2.43.0


From 0791734308e9a9a7c640752e1727c1954c01d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:48 +0000
Subject: [PATCH 082/106] fix: XSLT saw neighbouring text and CDATA sections as
 separate nodes when applying built-in rules and copying

---
 include/XSLT/impl/xslt_apply_templates.hpp    |  5 ++--
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    | 26 ++++++++++---------
 include/XSLT/impl/xslt_copy.hpp               |  6 ++---
 3 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/include/XSLT/impl/xslt_apply_templates.hpp b/include/XSLT/impl/xslt_apply_templates.hpp
index 1a423ef..53a833c 100644
--- a/include/XSLT/impl/xslt_apply_templates.hpp
+++ b/include/XSLT/impl/xslt_apply_templates.hpp
@@ -33,14 +33,13 @@ public:
     if(!SortableT::has_sort() && select_ == 0)
     {
       if(node.hasChildNodes())
-        context.stylesheet().applyTemplates(node.getChildNodes(), context, mode_);
+        context.stylesheet().applyTemplatesToChildren(node, context, mode_);
       return;
     }
 
     Arabica::XPath::NodeSet<string_type, string_adaptor> nodes;
     if(select_ == 0)
-      for(DOM::Node<string_type, string_adaptor> n = node.getFirstChild(); n != 0; n = n.getNextSibling())
-        nodes.push_back(n);
+      nodes = context.stylesheet().children(node);
     else
     {
       Arabica::XPath::XPathValue<string_type, string_adaptor> value = select_->evaluate(node, context.xpathContext());
diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 63ba802..9a1b471 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -48,7 +48,6 @@ public:
   typedef Arabica::XPath::XPathValue<string_type, string_adaptor> Value;
   typedef Arabica::XPath::NodeSet<string_type, string_adaptor> NodeSet;
   typedef DOM::Node<string_type, string_adaptor> DOMNode;
-  typedef DOM::NodeList<string_type, string_adaptor> DOMNodeList;
 
   CompiledStylesheet() :
       output_(new StreamSink<string_type, string_adaptor>(streams::out())),
@@ -196,16 +195,19 @@ public:
     }
   } // applyTemplates
 
-  void applyTemplates(const DOMNodeList& nodes, ExecutionContext<string_type, string_adaptor>& context, const string_type& mode) const 
+  void applyTemplatesToChildren(const DOMNode& node, ExecutionContext<string_type, string_adaptor>& context, const string_type& mode) const 
   {
-    // entirely simple so far
-    LastFrame<string_type, string_adaptor> last(context, (size_t)nodes.getLength());
-    for(int i = 0, ie = nodes.getLength(); i != ie; ++i)
-    {
-      context.setPosition(nodes.item(i), i+1);
-      doApplyTemplates(nodes.item(i), context, mode, Precedence::FrozenPrecedence());
-    }
-  } // applyTemplates
+    applyTemplates(children(node), context, mode);
+  } // applyTemplatesToChildren
+
+  // the children XPath sees, where neighbouring text and CDATA sections are a single node
+  static NodeSet children(const DOMNode& node)
+  {
+    NodeSet nodes;
+    for(XPath::AxisEnumerator<string_type, string_adaptor> n(node, XPath::CHILD); *n != 0; ++n)
+      nodes.push_back(*n);
+    return nodes;
+  } // children
 
   void applyTemplates(const DOMNode& node, ExecutionContext<string_type, string_adaptor>& context, const string_type& mode) const
   {
@@ -279,12 +281,12 @@ private:
       case DOM::Node_base::DOCUMENT_NODE:
       case DOM::Node_base::DOCUMENT_FRAGMENT_NODE:
       case DOM::Node_base::ELEMENT_NODE:
-        applyTemplates(node.getChildNodes(), context, mode);
+        applyTemplatesToChildren(node, context, mode);
         break;
       case DOM::Node_base::ATTRIBUTE_NODE:
       case DOM::Node_base::TEXT_NODE:
       case DOM::Node_base::CDATA_SECTION_NODE:
-        context.sink().characters(node.getNodeValue());
+        context.sink().characters(XPath::impl::nodeStringValue<string_type, string_adaptor>(node));
 	/*
         {
           const string_type& ch = node.getNodeValue();
diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index 1afe00e..1efacba 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -59,7 +59,7 @@ protected:
       break;
     case DOM::Node_base::TEXT_NODE:
     case DOM::Node_base::CDATA_SECTION_NODE:
-      context.sink().characters(node.getNodeValue());
+      context.sink().characters(Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(node));
       break;
     } // switch
   } // execute
@@ -149,8 +149,8 @@ protected:
         this->copy(attrs.item(a), context);
     } // if ...
 
-    for(DOM::Node<string_type, string_adaptor> n = node.getFirstChild(); n != 0; n = n.getNextSibling())
-      this->copy(n, context);
+    for(Arabica::XPath::AxisEnumerator<string_type, string_adaptor> n(node, Arabica::XPath::CHILD); *n != 0; ++n)
+      this->copy(*n, context);
   } // process_content
 
 private:
-- 
2.43.0


From e2efd17996478c04ca2688da77deeffd4358469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:32 +0000
Subject: [PATCH 083/106] fix: xmlns on literal result elements was written as
 an attribute too

---
 include/XSLT/impl/handler/xslt_inline_element_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
index 960795e..450f576 100644
--- a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
@@ -31,7 +31,7 @@ protected:
     std::vector<InlineAttribute<string_type, string_adaptor> > inlineAtts;
     for(int i = 0; i != atts.getLength(); ++i)
     {      
-      if(string_adaptor::find(atts.getQName(i), SC::xmlns_colon) == 0)
+      if((atts.getQName(i) == SC::xmlns) || (string_adaptor::find(atts.getQName(i), SC::xmlns_colon) == 0))
         continue;
       if(atts.getURI(i) == StylesheetConstant<string_type, string_adaptor>::NamespaceURI)
         continue;
-- 
2.43.0


From 65b7b7cafd58f66d6f740cf143741bf3b292a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:32 +0000
Subject: [PATCH 084/106] fix: a global variable that refers to itself through
 a variable inside its content never ended

---
 include/XSLT/impl/xslt_execution_context.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 86564f0..4737113 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -156,7 +156,13 @@ public:
   virtual Arabica::XPath::XPathValue<string_type, string_adaptor> value() const 
   {
     if(!value_)
+    {
+      if(resolving_)
+        throw std::runtime_error("Circular dependency: " + string_adaptor::asStdString(name()) + " refers to itself directly or indirectly.");
+      resolving_ = true;
       value_ = passed_ ? passed_->value() : var_.value(node_, context_, sink_);
+      resolving_ = false;
+    } // if ...
     return value_;
   } // value
 
@@ -174,7 +180,8 @@ private:
       sink_(),
       node_(node),
       context_(sink_, context),
-      passed_(passed)
+      passed_(passed),
+      resolving_(false)
   {
     context_.forgetPassedParams();
   } // VariableClosure
@@ -184,6 +191,7 @@ private:
   const DOM::Node<string_type, string_adaptor> node_;
   mutable ExecutionContext<string_type, string_adaptor> context_;
   const Variable_instance_ptr passed_;
+  mutable bool resolving_;
   mutable Arabica::XPath::XPathValue<string_type, string_adaptor> value_;
 
   VariableClosure();
-- 
2.43.0


From 7b94d34b7a182c03b8937e4af2cfb8b38da49d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:37 +0000
Subject: [PATCH 085/106] fix: xsl:copy-of copied the nodes of reverse axes
 backwards

---
 include/XSLT/impl/xslt_copy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index 1efacba..618832d 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -135,6 +135,7 @@ public:
     } 
 
     Arabica::XPath::NodeSet<string_type, string_adaptor> nodes = value.asNodeSet();
+    nodes.to_document_order();
     for(typename Arabica::XPath::NodeSet<string_type, string_adaptor>::const_iterator n = nodes.begin(), e = nodes.end(); n != e; ++n)
       this->copy(*n, context);
   } // execute
-- 
2.43.0


From b83e9dd143eb13e50ee1f4ebf45c2df8c717fd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:09 +0000
Subject: [PATCH 086/106] fix: xsl:apply-imports in xsl:for-each went on
 without a current template rule, for ever if called again

---
 include/XSLT/impl/xslt_apply_imports.hpp     |  2 ++
 include/XSLT/impl/xslt_execution_context.hpp | 28 +++++++++++++++++---
 include/XSLT/impl/xslt_for_each.hpp          |  1 +
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/XSLT/impl/xslt_apply_imports.hpp b/include/XSLT/impl/xslt_apply_imports.hpp
index 9337736..6823c52 100644
--- a/include/XSLT/impl/xslt_apply_imports.hpp
+++ b/include/XSLT/impl/xslt_apply_imports.hpp
@@ -13,6 +13,8 @@ public:
   virtual void execute(const DOM::Node<string_type, string_adaptor>& node, 
                        ExecutionContext<string_type, string_adaptor>& context) const
   {
+    if(!context.hasCurrentRule())
+      throw SAX::SAXException("xsl:apply-imports must be instantiated by a template rule, and not from within xsl:for-each");
     context.stylesheet().applyImports(node, context);
   } // execute
 }; // class ApplyImports
diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 4737113..ce3e1cd 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -44,7 +44,8 @@ public:
       stylesheet_(stylesheet),
       sink_(output.asOutput()),
       message_sink_(error_output),
-      to_msg_(0)
+      to_msg_(0),
+      has_rule_(false)
   {
 		xpathContext_.setVariableResolver(stack_);
     sink_.set_warning_sink(message_sink_.asOutput());
@@ -57,7 +58,8 @@ public:
     stack_(rhs.stack_),
     sink_(output.asOutput()),
     message_sink_(rhs.message_sink_),
-    to_msg_(false)
+    to_msg_(false),
+    has_rule_(rhs.has_rule_)
   {
 		xpathContext_.setVariableResolver(stack_);
     sink_.set_warning_sink(message_sink_.asOutput());
@@ -65,7 +67,8 @@ public:
     xpathContext_.setCurrentNode(rhs.xpathContext().currentNode());
     xpathContext_.setPosition(rhs.xpathContext().position());
     xpathContext_.setLast(rhs.xpathContext().last());
-    setCurrentRule(rhs.current_mode_, rhs.current_generation_);
+    current_mode_ = rhs.current_mode_;
+    current_generation_ = rhs.current_generation_;
   } // ExecutionContext
 
   const CompiledStylesheet<string_type, string_adaptor>& stylesheet() const { return stylesheet_; }
@@ -99,14 +102,17 @@ public:
     xpathContext_.setPosition(pos);
   } // setPosition
 
-  // the mode and import precedence of the current template rule
+  // the mode and import precedence of the current template rule, if there is one
+  bool hasCurrentRule() const { return has_rule_; }
   const string_type& currentMode() const { return current_mode_; }
   const Precedence& currentGeneration() const { return current_generation_; }
   void setCurrentRule(const string_type& mode, const Precedence& generation)
   {
     current_mode_ = mode;
     current_generation_ = generation;
+    has_rule_ = true;
   } // setCurrentRule
+  void clearCurrentRule() { has_rule_ = false; }
 
   int setLast(int last)
   {
@@ -127,6 +133,7 @@ private:
   Output<string_type, string_adaptor>& sink_;
   StreamSink<string_type, string_adaptor> message_sink_;
   int to_msg_;
+  bool has_rule_;
   string_type current_mode_;
   Precedence current_generation_;
 
@@ -281,19 +288,32 @@ class RuleFrame
 public:
   RuleFrame(ExecutionContext<string_type, string_adaptor>& context, const string_type& mode, const Precedence& generation) :
     context_(context),
+    hadRule_(context.hasCurrentRule()),
     oldMode_(context.currentMode()),
     oldGeneration_(context.currentGeneration())
   {
     context_.setCurrentRule(mode, generation);
   } // RuleFrame
 
+  explicit RuleFrame(ExecutionContext<string_type, string_adaptor>& context) : // no current rule
+    context_(context),
+    hadRule_(context.hasCurrentRule()),
+    oldMode_(context.currentMode()),
+    oldGeneration_(context.currentGeneration())
+  {
+    context_.clearCurrentRule();
+  } // RuleFrame
+
   ~RuleFrame()
   {
     context_.setCurrentRule(oldMode_, oldGeneration_);
+    if(!hadRule_)
+      context_.clearCurrentRule();
   } // ~RuleFrame
 
 private:
   ExecutionContext<string_type, string_adaptor>& context_;
+  const bool hadRule_;
   const string_type oldMode_;
   const Precedence oldGeneration_;
 
diff --git a/include/XSLT/impl/xslt_for_each.hpp b/include/XSLT/impl/xslt_for_each.hpp
index b332141..7e1e9ef 100644
--- a/include/XSLT/impl/xslt_for_each.hpp
+++ b/include/XSLT/impl/xslt_for_each.hpp
@@ -42,6 +42,7 @@ public:
     NodeSet nodes = sel.asNodeSet();
     this->sort(node, nodes, context);
 
+    RuleFrame<string_type, string_adaptor> rule(context);
     LastFrame<string_type, string_adaptor> last(context, nodes.size());
     for(size_t n = 0, e = nodes.size(); n != e; ++n)
     {
-- 
2.43.0


From df18adefe53c6bced5c791467353114dee1e5c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:08 +0000
Subject: [PATCH 087/106] fix: XSLT CDATA sections with two ]]>, or one written
 in pieces, weren't well-formed, and sections were marked in text output

---
 include/XSLT/impl/xslt_output.hpp |  2 +-
 include/XSLT/impl/xslt_sink.hpp   | 32 +++++++++++++++----------------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index 92724f6..904d056 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -339,7 +339,7 @@ private:
 
   bool isCDATA()
   {
-    if(element_stack_.empty())
+    if(text_mode_ || element_stack_.empty())
       return false;
     QName<string_type, string_adaptor> currentElement = element_stack_.top();
     return cdataElements_.find(currentElement) != cdataElements_.end();
diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 4cbcf3d..59d797d 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -89,6 +89,7 @@ public:
     stream_(stream),
     disable_output_escaping_(false),
     in_cdata_(false),
+    closing_brackets_(0),
     empty_(false),
     seen_root_(true),
     indent_(-1),
@@ -100,6 +101,7 @@ public:
     stream_(rhs.stream_),
     disable_output_escaping_(rhs.disable_output_escaping_),
     in_cdata_(rhs.in_cdata_),
+    closing_brackets_(rhs.closing_brackets_),
     empty_(false),
     seen_root_(rhs.seen_root_),
     indent_(rhs.indent_),
@@ -182,24 +184,18 @@ protected:
       std::for_each(string_adaptor::begin(ch), string_adaptor::end(ch), Arabica::XML::text_escaper<typename string_adaptor::value_type>(stream_));
     else if(in_cdata_) 
     {
-      size_t breakAt = string_adaptor::find(ch, SC::CDATAEnd);
-      if(breakAt == string_adaptor::npos())
+      // the ]] of a ]]> may have been written by an earlier call
+      typedef Arabica::text::Unicode<typename string_adaptor::value_type> UnicodeT;
+      for(typename string_adaptor::const_iterator i = string_adaptor::begin(ch), ie = string_adaptor::end(ch); i != ie; ++i)
       {
-        stream_ << ch;
-        return;
-      }
-      size_t start = 0;
-      do
-      {
-        breakAt += 2;
-        stream_ << string_adaptor::substr(ch, start, breakAt);
-        do_end_CDATA();
-        start = breakAt;
-        do_start_CDATA();
-        breakAt = string_adaptor::find(ch, SC::CDATAEnd, breakAt);
-      }
-      while(breakAt != string_adaptor::npos());
-      stream_ << string_adaptor::substr(ch, start);
+        if((*i == UnicodeT::GREATER_THAN_SIGN) && (closing_brackets_ >= 2))
+        {
+          do_end_CDATA();
+          do_start_CDATA();
+        } // if ...
+        closing_brackets_ = (*i == UnicodeT::RIGHT_SQUARE_BRACKET) ? closing_brackets_ + 1 : 0;
+        stream_ << *i;
+      } // for ...
     }
     else
       stream_ << ch;
@@ -210,6 +206,7 @@ protected:
     close_element_if_empty();
 
     in_cdata_ = true;
+    closing_brackets_ = 0;
     stream_ << SC::CDATAStart;
   } // do_start_CDATA
 
@@ -337,6 +334,7 @@ private:
   std::basic_ostream<typename string_adaptor::value_type>& stream_;
   bool disable_output_escaping_;
   bool in_cdata_;
+  int closing_brackets_;
   bool empty_;
   bool seen_root_;
   int indent_;
-- 
2.43.0


From 852a636805ecb2c0c991afd57b70b01dcc291902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:55 +0000
Subject: [PATCH 088/106] fix: the TextOnly filter did not compile, and let
 prefix mappings through

---
 include/SAX/filter/TextOnly.hpp | 39 ++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/include/SAX/filter/TextOnly.hpp b/include/SAX/filter/TextOnly.hpp
index a471466..17ca12f 100644
--- a/include/SAX/filter/TextOnly.hpp
+++ b/include/SAX/filter/TextOnly.hpp
@@ -20,9 +20,10 @@ class TextOnly : public XMLFilterImpl<string_type, string_adaptor>
 
 public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
+  typedef Attributes<string_type, string_adaptor> AttributesT;
 
   TextOnly() : 
-    XMLFilterT(0)
+    XMLFilterT()
   { 
   } // TextOnly
 
@@ -32,32 +33,34 @@ public:
   } // TextOnly
 
   // ContentHandler
-  virtual void startElement(const stringT& namespaceURI, const stringT& localName,
-                            const stringT& qName, const AttributesT& atts) { }
-  virtual void endElement(const stringT& namespaceURI, const stringT& localName,
-                          const stringT& qName) { }
-  virtual void processingInstruction(const stringT& target, const stringT& data) { }
-  virtual void skippedEntity(const stringT& name) { }
+  virtual void startPrefixMapping(const string_type& prefix, const string_type& uri) { }
+  virtual void endPrefixMapping(const string_type& prefix) { }
+  virtual void startElement(const string_type& namespaceURI, const string_type& localName,
+                            const string_type& qName, const AttributesT& atts) { }
+  virtual void endElement(const string_type& namespaceURI, const string_type& localName,
+                          const string_type& qName) { }
+  virtual void processingInstruction(const string_type& target, const string_type& data) { }
+  virtual void skippedEntity(const string_type& name) { }
 
   // Lexical Handler
-  virtual void startDTD(const stringT& name, const stringT& publicId, const stringT& systemId) { }
+  virtual void startDTD(const string_type& name, const string_type& publicId, const string_type& systemId) { }
   virtual void endDTD() { }
-  virtual void startEntity(const stringT& name) { }
-  virtual void endEntity(const stringT& name) { }
+  virtual void startEntity(const string_type& name) { }
+  virtual void endEntity(const string_type& name) { }
   virtual void startCDATA() { }
   virtual void endCDATA() { }
-  virtual void comment(const stringT& text) { }
+  virtual void comment(const string_type& text) { }
 
   // DTD Handler
-  virtual void notationDecl(const stringT& name, const stringT& publicId, const stringT& systemId) { }
-  virtual void unparsedEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId, const stringT& notationName) { }
+  virtual void notationDecl(const string_type& name, const string_type& publicId, const string_type& systemId) { }
+  virtual void unparsedEntityDecl(const string_type& name, const string_type& publicId, const string_type& systemId, const string_type& notationName) { }
 
   // Decl Handler
-  virtual void elementDecl(const stringT& name, const stringT& model) { }
-  virtual void attributeDecl(const stringT& elementName, const stringT& attributeName,
-                              const stringT& type, const stringT& valueDefault, const stringT& value) { }
-  virtual void internalEntityDecl(const stringT& name, const stringT& value) { }
-  virtual void externalEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId) { }
+  virtual void elementDecl(const string_type& name, const string_type& model) { }
+  virtual void attributeDecl(const string_type& elementName, const string_type& attributeName,
+                              const string_type& type, const string_type& valueDefault, const string_type& value) { }
+  virtual void internalEntityDecl(const string_type& name, const string_type& value) { }
+  virtual void externalEntityDecl(const string_type& name, const string_type& publicId, const string_type& systemId) { }
 }; // class TextOnly
 
 } // namespace SAX
-- 
2.43.0


From fbfd5dad6b0ccb761172e859857f01024c04d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:55 +0000
Subject: [PATCH 089/106] fix: TextCoalescer let errors and warnings overtake
 the text before them, and fatal errors lose it

---
 include/SAX/filter/TextCoalescer.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/SAX/filter/TextCoalescer.hpp b/include/SAX/filter/TextCoalescer.hpp
index 542241e..5f6b37c 100644
--- a/include/SAX/filter/TextCoalescer.hpp
+++ b/include/SAX/filter/TextCoalescer.hpp
@@ -23,6 +23,7 @@ class TextCoalescer : public XMLFilterImpl<string_type, string_adaptor>
 public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
   typedef Attributes<string_type, string_adaptor> AttributesT;
+  typedef typename XMLFilterT::SAXParseExceptionT SAXParseExceptionT;
 
   TextCoalescer() : 
     XMLFilterT()
@@ -118,6 +119,23 @@ public:
     XMLFilterT::endEntity(name);
   } // endEntity
 
+  virtual void warning(const SAXParseExceptionT& exception)
+  {
+    flush();
+    XMLFilterT::warning(exception);
+  } // warning
+
+  virtual void error(const SAXParseExceptionT& exception)
+  {
+    flush();
+    XMLFilterT::error(exception);
+  } // error
+
+  virtual void fatalError(const SAXParseExceptionT& exception)
+  {
+    flush();
+    XMLFilterT::fatalError(exception);
+  } // fatalError
 
 private:
   void flush()
-- 
2.43.0


From ec064b9cb4a4ade9bead6d168727419734e2c320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:55 +0000
Subject: [PATCH 090/106] fix: NamespaceTracker kept the namespaces of a parse
 that was cut short for the next one

---
 include/SAX/filter/NamespaceTracker.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/SAX/filter/NamespaceTracker.hpp b/include/SAX/filter/NamespaceTracker.hpp
index 19392ce..c4ac4b9 100644
--- a/include/SAX/filter/NamespaceTracker.hpp
+++ b/include/SAX/filter/NamespaceTracker.hpp
@@ -35,6 +35,14 @@ public:
 
   virtual ~NamespaceTracker() { } 
 
+  virtual void parse(typename XMLFilterT::InputSourceT& input)
+  {
+    // the last parse may have been cut short
+    namespaces_.reset();
+    buffer_.clear();
+    XMLFilterT::parse(input);
+  } // parse
+
   XML::QualifiedName<string_type, string_adaptor> processElementName(const string_type& rawName) const
   {
     return namespaces_.processName(rawName, false);
-- 
2.43.0


From c35ec8eb0891d013a82c34d9cd2f3c1444157986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:55 +0000
Subject: [PATCH 091/106] fix: XMLBaseTracker put the document location above
 xml:base if asked late, and kept the last document's bases

---
 include/SAX/filter/XMLBaseTracker.hpp  | 35 +++++++++++++++++++++-----
 include/SAX/helpers/XMLBaseSupport.hpp |  6 +++++
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/include/SAX/filter/XMLBaseTracker.hpp b/include/SAX/filter/XMLBaseTracker.hpp
index 6a3b170..1773916 100644
--- a/include/SAX/filter/XMLBaseTracker.hpp
+++ b/include/SAX/filter/XMLBaseTracker.hpp
@@ -25,14 +25,16 @@ public:
   XMLBaseTracker() : 
     XMLFilterT(),
     locator_(0),
-    base_set_(false)
+    base_set_(false),
+    location_set_(false)
   { 
   } // XMLBaseTracker
 
   XMLBaseTracker(XMLReaderT& parent) : 
     XMLFilterT(parent),
     locator_(0),
-    base_set_(false)
+    base_set_(false),
+    location_set_(false)
   { 
   } // XMLBaseTracker
 
@@ -40,9 +42,22 @@ public:
 
   void setDocumentLocation(const string_type& loc)
   {
+    location_ = loc;
+    location_set_ = true;
     setDocLoc(loc);
   } // setDocumentLocation
 
+  virtual void parse(typename XMLFilterT::InputSourceT& input)
+  {
+    // forget the last document
+    xmlbase_.reset();
+    locator_ = 0;
+    base_set_ = false;
+    if(location_set_)
+      setDocLoc(location_);
+    XMLFilterT::parse(input);
+  } // parse
+
   virtual void setDocumentLocator(const LocatorT& locator)
   {
     locator_ = &locator;
@@ -52,6 +67,8 @@ public:
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts)
   {
+    // the document's own location has to be there before any xml:base
+    findDocLoc();
     xmlbase_.startElement(atts);
     XMLFilterT::startElement(namespaceURI, localName, qName, atts);
   } // startElement
@@ -65,19 +82,23 @@ public:
 
   string_type currentBase() const
   {
-    if(!base_set_ && locator_)
-      setDocLoc(locator_->getSystemId());
+    findDocLoc();
     return xmlbase_.currentBase();
   } // currentBase
 
   string_type makeAbsolute(const string_type& url) const
   {
-    if(!base_set_ && locator_)
-      setDocLoc(locator_->getSystemId());
+    findDocLoc();
     return xmlbase_.makeAbsolute(url);
   } // makeAbsolute
 
 private:
+  void findDocLoc() const
+  {
+    if(!base_set_ && locator_)
+      setDocLoc(locator_->getSystemId());
+  } // findDocLoc
+
   void setDocLoc(const string_type& loc) const
   {
     base_set_ = true;
@@ -87,6 +108,8 @@ private:
   mutable XMLBaseSupportT xmlbase_;
   const LocatorT* locator_;
   mutable bool base_set_;
+  string_type location_;
+  bool location_set_;
 }; // class XMLBaseTracker
 
 } // namespace SAX
diff --git a/include/SAX/helpers/XMLBaseSupport.hpp b/include/SAX/helpers/XMLBaseSupport.hpp
index ce48dbf..250f08e 100644
--- a/include/SAX/helpers/XMLBaseSupport.hpp
+++ b/include/SAX/helpers/XMLBaseSupport.hpp
@@ -54,6 +54,12 @@ public:
   XMLBaseSupport() :
       depth_(0) { }
 
+  void reset()
+  {
+    bases_ = baseStackT();
+    depth_ = 0;
+  } // reset
+
   void setDocumentLocation(const string_type& loc)
   {
     bases_.push(std::make_pair(-1, loc));
-- 
2.43.0


From 899a59f7d3b07e4dc5d106541df26a8e0663d84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:55 +0000
Subject: [PATCH 092/106] fix: parsing with a filter that has no parent
 dereferenced a null pointer

---
 include/SAX/helpers/XMLFilterImpl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/SAX/helpers/XMLFilterImpl.hpp b/include/SAX/helpers/XMLFilterImpl.hpp
index 0724132..0f5ab65 100644
--- a/include/SAX/helpers/XMLFilterImpl.hpp
+++ b/include/SAX/helpers/XMLFilterImpl.hpp
@@ -548,6 +548,9 @@ private:
 
   void setupParse()
   {
+    if(!parent_)
+      throw SAXException("No parent for filter");
+
     parent_->setEntityResolver(*this);
     parent_->setDTDHandler(*this);
     parent_->setContentHandler(*this);
-- 
2.43.0


From edcd0151a014649193c3abd1e24014e306e7b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:55 +0000
Subject: [PATCH 093/106] fix: AttributesImpl and LocatorImpl assignment
 returned nothing

---
 include/SAX/helpers/AttributesImpl.hpp | 1 +
 include/SAX/helpers/LocatorImpl.hpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/SAX/helpers/AttributesImpl.hpp b/include/SAX/helpers/AttributesImpl.hpp
index 12ae708..6562d97 100644
--- a/include/SAX/helpers/AttributesImpl.hpp
+++ b/include/SAX/helpers/AttributesImpl.hpp
@@ -93,6 +93,7 @@ public:
   AttributesImpl& operator=(const AttributesT& rhs) 
   {
     setAttributes(rhs);
+    return *this;
   } // operator=
 
   bool operator==(const AttributesImpl& rhs) const
diff --git a/include/SAX/helpers/LocatorImpl.hpp b/include/SAX/helpers/LocatorImpl.hpp
index 4505a49..8a87231 100644
--- a/include/SAX/helpers/LocatorImpl.hpp
+++ b/include/SAX/helpers/LocatorImpl.hpp
@@ -78,6 +78,7 @@ public:
     systemId_ = rhs.getSystemId(); 
     lineNumber_ = rhs.getLineNumber();
     columnNumber_ = rhs.getColumnNumber();
+    return *this;
   } // operator=
 
   //////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 5bbc8977705c23f1032ef877475cbb64e86a0baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:55 +0000
Subject: [PATCH 094/106] fix: setting an attribute list to itself emptied it

---
 include/SAX/helpers/AttributesImpl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/SAX/helpers/AttributesImpl.hpp b/include/SAX/helpers/AttributesImpl.hpp
index 6562d97..a4c9458 100644
--- a/include/SAX/helpers/AttributesImpl.hpp
+++ b/include/SAX/helpers/AttributesImpl.hpp
@@ -325,6 +325,9 @@ public:
    */
   void setAttributes(const AttributesT& atts)
   {
+    if(&atts == this)
+      return;
+
 	  clear();
 	  
     int max = atts.getLength();
-- 
2.43.0


From c0a662592bf271253b07d415f5bce40a720e9d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:32 +0000
Subject: [PATCH 095/106] fix: SAX Writer carried on in the state a parse that
 was cut short had left it in

---
 include/SAX/filter/Writer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 213f080..1f0d872 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -170,7 +170,12 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
 template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::startDocument()
 {
-  startElementClose();
+  // the last document may have been cut short
+  inStartTag_ = false;
+  inDTD_ = false;
+  internalSubset_ = true;
+  prefixMappings_.clear();
+
   *stream_ << UnicodeT::LESS_THAN_SIGN
            << UnicodeT::QUESTION_MARK
            << UnicodeT::LOWERCASE_X
-- 
2.43.0


From 25cfac6c40407f5b2d9cd4ec1a7cc67f54db54b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:32 +0000
Subject: [PATCH 096/106] fix: SAX Writer wrote namespace declarations twice if
 they were also reported as attributes

---
 include/SAX/filter/Writer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 1f0d872..81c3654 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -268,6 +268,10 @@ void Writer<string_type, string_adaptor>::startElementOpen(
   doIndent();
   *stream_ << UnicodeT::LESS_THAN_SIGN << (!qName.empty() ? qName : localName);
 
+  // namespace-prefixes readers report declarations as attributes too
+  for(int i = prefixMappings_.getLength() - 1; i >= 0; --i)
+    if(atts.getIndex(prefixMappings_.getQName(i)) != -1)
+      prefixMappings_.removeAttribute(i);
   writeAttributes(prefixMappings_);
   prefixMappings_.clear();
   writeAttributes(atts);
-- 
2.43.0


From d7c876977f2d4913c80709956a1b176c905400a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:32 +0000
Subject: [PATCH 097/106] fix: SAX Writer wrote parameter entity declarations
 without the space after the %

---
 include/SAX/filter/Writer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 81c3654..2d2df65 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -701,8 +701,11 @@ void Writer<string_type, string_adaptor>::startEntityDecl(const string_type& nam
            << UnicodeT::CAPITAL_I
            << UnicodeT::CAPITAL_T
            << UnicodeT::CAPITAL_Y
-           << UnicodeT::SPACE
-           << name;
+           << UnicodeT::SPACE;
+  if(!name.empty() && name[0] == UnicodeT::PERCENT_SIGN)
+    *stream_ << UnicodeT::PERCENT_SIGN << UnicodeT::SPACE << name.substr(1);
+  else
+    *stream_ << name;
 } // startEntityDecl
 
 template<class string_type, class string_adaptor>
-- 
2.43.0


From a39278c9fa1d1bdac7b0b0aa4598c8c88d277ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:32 +0000
Subject: [PATCH 098/106] fix: SAX Writer did not escape entity values and
 attribute defaults, and left out empty defaults

---
 include/SAX/filter/Writer.hpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 2d2df65..03005ac 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -144,6 +144,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
   protected:
     /////////////////
     void startEntityDecl(const string_type& name);
+    void writeEntityValue(const string_type& value);
     void publicAndSystem(const string_type& publicId, const string_type& systemId);
     void doIndent();
     bool isDtd(const string_type& name);
@@ -641,11 +642,15 @@ void Writer<string_type, string_adaptor>::attributeDecl(const string_type& eleme
       *stream_ << UnicodeT::SPACE
                << valueDefault;
 
-    if(!value.empty())
+    // only #REQUIRED and #IMPLIED attributes have no default, and it may be empty
+    if(!value.empty() || valueDefault.empty() ||
+       (valueDefault.length() > 1 && valueDefault[1] == UnicodeT::CAPITAL_F))
+    {
       *stream_ << UnicodeT::SPACE
-               << UnicodeT::QUOTATION_MARK
-               << value
                << UnicodeT::QUOTATION_MARK;
+      std::for_each(value.begin(), value.end(), attribute_escaperT(*stream_));
+      *stream_ << UnicodeT::QUOTATION_MARK;
+    } // if ...
 
     *stream_ << UnicodeT::GREATER_THAN_SIGN
              << std::endl;
@@ -663,9 +668,9 @@ void Writer<string_type, string_adaptor>::internalEntityDecl(const string_type&
     doIndent();
     startEntityDecl(name);
     *stream_ << UnicodeT::SPACE
-             << UnicodeT::QUOTATION_MARK
-             << value
-             << UnicodeT::QUOTATION_MARK
+             << UnicodeT::QUOTATION_MARK;
+    writeEntityValue(value);
+    *stream_ << UnicodeT::QUOTATION_MARK
              << UnicodeT::GREATER_THAN_SIGN
              << std::endl;
   } // if ...
@@ -708,6 +713,18 @@ void Writer<string_type, string_adaptor>::startEntityDecl(const string_type& nam
     *stream_ << name;
 } // startEntityDecl
 
+template<class string_type, class string_adaptor>
+void Writer<string_type, string_adaptor>::writeEntityValue(const string_type& value)
+{
+  for(typename string_type::const_iterator i = value.begin(), ie = value.end(); i != ie; ++i)
+    if(*i == UnicodeT::QUOTATION_MARK || *i == UnicodeT::PERCENT_SIGN ||
+       *i == UnicodeT::AMPERSAND || *i == UnicodeT::CARRIAGE_RETURN)
+      *stream_ << UnicodeT::AMPERSAND << UnicodeT::NUMBER_SIGN
+               << static_cast<int>(*i) << UnicodeT::SEMI_COLON;
+    else
+      *stream_ << *i;
+} // writeEntityValue
+
 template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::publicAndSystem(const string_type& publicId, const string_type& systemId)
 {
-- 
2.43.0


From a1b044d9b5fe9fbf1b543e3980c62d5d797c9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:32 +0000
Subject: [PATCH 099/106] fix: SAX Writer put system identifiers with a double
 quote in double quotes

---
 include/SAX/filter/Writer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 03005ac..abcbd73 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -752,10 +752,12 @@ void Writer<string_type, string_adaptor>::publicAndSystem(const string_type& pub
                << UnicodeT::CAPITAL_T
                << UnicodeT::CAPITAL_E
                << UnicodeT::CAPITAL_M;
+    const charT quote = (systemId.find(UnicodeT::QUOTATION_MARK) == string_type::npos) ?
+                            UnicodeT::QUOTATION_MARK : UnicodeT::APOSTROPHE;
     *stream_ << UnicodeT::SPACE
-             << UnicodeT::QUOTATION_MARK
+             << quote
              << systemId
-             << UnicodeT::QUOTATION_MARK;
+             << quote;
   } // if ...
 } // publicAndSystem
 
-- 
2.43.0


From 552e1fb1bfd133b67fee5a29ecb9f4a4b37ed9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:01 +0000
Subject: [PATCH 100/106] fix: SAX/helpers/LocatorImpl.hpp could not be
 included

---
 include/SAX/helpers/LocatorImpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/helpers/LocatorImpl.hpp b/include/SAX/helpers/LocatorImpl.hpp
index 8a87231..bdb67a1 100644
--- a/include/SAX/helpers/LocatorImpl.hpp
+++ b/include/SAX/helpers/LocatorImpl.hpp
@@ -6,7 +6,7 @@
 
 #include <SAX/ArabicaConfig.hpp>
 #include <string>
-#include <Locator.hpp>
+#include <SAX/Locator.hpp>
 
 namespace Arabica
 {
-- 
2.43.0


From 1aa9c87703aa53db5feaefe5c5bbb8b87869a23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:34 +0000
Subject: [PATCH 101/106] fix: match patterns miscounted position() and last()
 inside function arguments

---
 include/XPath/impl/xpath_function_holder.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/XPath/impl/xpath_function_holder.hpp b/include/XPath/impl/xpath_function_holder.hpp
index 6466a1e..388a24f 100644
--- a/include/XPath/impl/xpath_function_holder.hpp
+++ b/include/XPath/impl/xpath_function_holder.hpp
@@ -114,10 +114,12 @@ class FunctionHolder : public XPathExpression_impl<string_type, string_adaptor>
 public:
   FunctionHolder(XPathFunction<string_type, string_adaptor>* func,
                  const string_type& namespace_uri, 
-                 const string_type& name) :
+                 const string_type& name,
+                 const std::vector<XPathExpression<string_type, string_adaptor> >& args) :
     func_(func),
     namespace_uri_(namespace_uri),
-    name_(name)
+    name_(name),
+    args_(args)
   {
   } // FunctionHolder
 
@@ -137,6 +139,13 @@ public:
     return XPathValue<string_type, string_adaptor>(func_->evaluate(context, executionContext));
   } // evaluate
 
+  virtual void scan(Expression_scanner<string_type, string_adaptor>& scanner) const
+  {
+    for(size_t a = 0; a != args_.size(); ++a)
+      args_[a].get()->scan(scanner);
+    scanner.scan(this);
+  } // scan
+
   static FunctionHolder* createFunction(const string_type& namespace_uri,
                                         const string_type& name, 
                                         const std::vector<XPathExpression<string_type, string_adaptor> >& argExprs,
@@ -162,13 +171,14 @@ public:
       throw UndefinedFunctionException(string_adaptor().asStdString(error));
     } // if(func == 0)
     
-    return new FunctionHolder(func, namespace_uri, name);
+    return new FunctionHolder(func, namespace_uri, name, argExprs);
   } // createFunction
 
 private:
   XPathFunction<string_type, string_adaptor>* func_;
   string_type namespace_uri_;
   string_type name_;
+  std::vector<XPathExpression<string_type, string_adaptor> > args_;
 }; // class FunctionHolder
 
 } // namespace impl
-- 
2.43.0


From 4ea81d15cadf3db927392a0be0e0279eccce7616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:16 +0000
Subject: [PATCH 102/106] fix: expat wrapper leaked the content model of every
 element declaration

---
 include/SAX/wrappers/saxexpat.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 7e77083..089f8c3 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -757,6 +757,11 @@ template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::elementDeclaration(const XML_Char* name,
                                          const XML_Content* model)
 {
+  // the content model is ours to release
+  XML_Parser parser = parser_;
+  std::shared_ptr<XML_Content> owned(const_cast<XML_Content*>(model),
+                                     [parser](XML_Content* m) { XML_FreeContentModel(parser, m); });
+
   if(!declHandler_)
     return;
 
-- 
2.43.0


From 0ff9a8c38cc9b78eac1f28af5811018e426b58c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:13 +0000
Subject: [PATCH 103/106] fix: entity and notation maps of a document type
 without a document did not keep it alive

---
 include/DOM/Simple/DocumentTypeImpl.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/DOM/Simple/DocumentTypeImpl.hpp b/include/DOM/Simple/DocumentTypeImpl.hpp
index 568e2e6..47bcb53 100644
--- a/include/DOM/Simple/DocumentTypeImpl.hpp
+++ b/include/DOM/Simple/DocumentTypeImpl.hpp
@@ -31,8 +31,8 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
       qualifiedName_(qualifiedName),
       publicId_(publicId),
       systemId_(systemId),
-      entities_(0),
-      notations_(0),
+      entities_(this),
+      notations_(this),
       elements_(0),
       refCount_(0)
     {
@@ -169,8 +169,21 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
     stringT qualifiedName_;
     stringT publicId_;
     stringT systemId_;
-    NamedNodeMapT entities_;
-    NamedNodeMapT notations_;
+    // like the document type itself, these may be in use before there is a document
+    class DeclarationMap : public NamedNodeMapT
+    {
+      public:
+        explicit DeclarationMap(DocumentTypeImpl* docType) : NamedNodeMapT(0), docType_(docType) { }
+
+        virtual void addRef() { docType_->addRef(); }
+        virtual void releaseRef() { docType_->releaseRef(); }
+
+      private:
+        DocumentTypeImpl* docType_;
+    }; // class DeclarationMap
+
+    DeclarationMap entities_;
+    DeclarationMap notations_;
     NamedNodeMapT elements_;
     std::vector<stringT> IDs_;
     unsigned int refCount_;
-- 
2.43.0


From 85e5a95d08483e4661e5c37b8f64f6bda68be12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:13 +0000
Subject: [PATCH 104/106] fix: DOMImplementation::createDocument leaked the
 document when the root name is bad

---
 include/DOM/Simple/DOMImplementation.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/DOM/Simple/DOMImplementation.hpp b/include/DOM/Simple/DOMImplementation.hpp
index 73a39fd..25885fb 100644
--- a/include/DOM/Simple/DOMImplementation.hpp
+++ b/include/DOM/Simple/DOMImplementation.hpp
@@ -68,11 +68,23 @@ class DOMImplementationImpl : public DOM::DOMImplementation_impl<stringT, string
                                                                          const stringT& qualifiedName,
                                                                          DOM::DocumentType_impl<stringT, string_adaptorT>* docType)
     {
-      DocumentImpl<stringT, string_adaptorT>* doc = new DocumentImpl<stringT, string_adaptorT>(namespaceURI, qualifiedName, docType, this);
-
-      if(!string_adaptorT::empty(qualifiedName))
-        doc->appendChild(doc->createElementNS(namespaceURI, qualifiedName));
-
+      if(docType && (docType->getOwnerDocument() != 0))
+        throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
+
+      DocumentImpl<stringT, string_adaptorT>* doc = new DocumentImpl<stringT, string_adaptorT>(namespaceURI, qualifiedName, 0, this);
+      try {
+        DOM::Node_impl<stringT, string_adaptorT>* root = 0;
+        if(!string_adaptorT::empty(qualifiedName))
+          root = doc->createElementNS(namespaceURI, qualifiedName);
+        if(docType)
+          doc->appendChild(docType);
+        if(root)
+          doc->appendChild(root);
+      } // try
+      catch(...) {
+        delete doc;
+        throw;
+      } // catch
       return doc;
     } // createDocument
 
-- 
2.43.0


From 10fa89429af8785ee3445ded4f20ccded508d918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:22 +0000
Subject: [PATCH 105/106] fix: a fragment of another document was emptied, or
 accepted when empty, instead of refused

---
 include/DOM/Simple/NodeImpl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index f0dbdca..53efbc6 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -401,6 +401,8 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
 
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
+        if(newChild->getOwnerDoc() != NodeImplT::getOwnerDoc())
+          throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
         checkNotWithin(newChild);
         for(NodeImplT* child = newChild->getFirst(); child != 0; child = newChild->getFirst())
           insertBefore(newChild->removeChild(child), refChild);
@@ -447,6 +449,8 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
 
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
+        if(newChild->getOwnerDoc() != NodeImplT::getOwnerDoc())
+          throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
         checkNotWithin(newChild);
         findChild(oldChild);
         // not exception safe - but the it's not specified to be :(
-- 
2.43.0


From 2b93c501c8677b9ca1e13bfbe968fde6193b7125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:29 +0000
Subject: [PATCH 106/106] fix: the entities of a parsed document were writable,
 and could be made to contain themselves

---
 include/DOM/SAX2DOM/SAX2DOM.hpp         |  4 +++-
 include/DOM/Simple/DocumentTypeImpl.hpp | 13 +++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index badf841..805818a 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -190,6 +190,9 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     // ContentHandler
     virtual void endDocument()
     {
+      // the entities have all their content now, and are read only from here on
+      if(documentType_ && document_ != 0)
+        documentType_->setReadOnly(true);
       currentNode_ = 0;
     } // endDocument
 
@@ -301,7 +304,6 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void endDTD()
     {
-      documentType_->setReadOnly(true);
       inDTD_ = false;
     } // endDTD
 
diff --git a/include/DOM/Simple/DocumentTypeImpl.hpp b/include/DOM/Simple/DocumentTypeImpl.hpp
index 47bcb53..af4e6dd 100644
--- a/include/DOM/Simple/DocumentTypeImpl.hpp
+++ b/include/DOM/Simple/DocumentTypeImpl.hpp
@@ -119,6 +119,13 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
         NodeT::ownerDoc_->addRef();
     } // setOwnerDocument
 
+    virtual void setReadOnly(bool readOnly)
+    {
+      ChildlessNodeImpl<stringT, string_adaptorT>::setReadOnly(readOnly);
+      setReadOnly(entities_, readOnly);
+      setReadOnly(notations_, readOnly);
+    } // setReadOnly
+
     NamedNodeMapT* getElements() 
     {
       return &elements_;
@@ -163,6 +170,12 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
     } // addId
 
   private:
+    static void setReadOnly(NamedNodeMapT& declarations, bool readOnly)
+    {
+      for(unsigned int i = 0; i != declarations.getLength(); ++i)
+        dynamic_cast<NodeImpl<stringT, string_adaptorT>*>(declarations.item(i))->setReadOnly(readOnly);
+    } // setReadOnly
+
     DocumentTypeImpl(const DocumentTypeImpl&);
     DocumentTypeImpl& operator=(const DocumentTypeImpl&);
 
-- 
2.43.0

