#!/usr/bin/env python3
"""Generate a header overlay that lets iwyu.cc / iwyu_ast_util.cc compile against
Clang 20.  /repo tracks Clang 21; exactly four names are missing in Clang 20.  The
overlay holds patched copies of three Clang headers (never touching /usr/lib):

  * MemberPointerType::getQualifier()      -> proxy around getClass()
  * DependentTemplateSpecializationType::getDependentTemplateName() -> proxy
  * CK_HLSLElementwiseCast / CK_HLSLAggregateSplatCast -> two extra enumerators
    (never produced by the Clang 20 library)

Only inline members and trailing enumerators are added, so the layout and ABI of
libclang-cpp are unchanged.
"""
import os
import sys

INC = '/usr/lib/llvm-20/include'


def patch(rel, edits, out):
    src = open(os.path.join(INC, rel)).read()
    for old, new in edits:
        if src.count(old) != 1:
            sys.exit('make_overlay: anchor not unique in %s: %r' % (rel, old))
        src = src.replace(old, new)
    dst = os.path.join(out, rel)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    tmp = dst + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        f.write(src)
    os.replace(tmp, dst)


def main():
    out = sys.argv[1]
    patch('clang/AST/Type.h', [
        ('  const Type *getClass() const { return Class; }\n'
         '  CXXRecordDecl *getMostRecentCXXRecordDecl() const;\n',
         '  const Type *getClass() const { return Class; }\n'
         '  CXXRecordDecl *getMostRecentCXXRecordDecl() const;\n'
         '  struct IwyuQualifierProxy {\n'
         '    const Type *T;\n'
         '    const Type *getAsType() const { return T; }\n'
         '    CXXRecordDecl *getAsRecordDecl() const;\n'
         '    const IwyuQualifierProxy *operator->() const { return this; }\n'
         '  };\n'
         '  IwyuQualifierProxy getQualifier() const { return {Class}; }\n'),
        ('  NestedNameSpecifier *getQualifier() const { return NNS; }\n'
         '  const IdentifierInfo *getIdentifier() const { return Name; }\n'
         '\n'
         '  ArrayRef<TemplateArgument> template_arguments() const {\n',
         '  NestedNameSpecifier *getQualifier() const { return NNS; }\n'
         '  struct IwyuDtnProxy {\n'
         '    NestedNameSpecifier *NNS;\n'
         '    NestedNameSpecifier *getQualifier() const { return NNS; }\n'
         '  };\n'
         '  IwyuDtnProxy getDependentTemplateName() const { return {NNS}; }\n'
         '  const IdentifierInfo *getIdentifier() const { return Name; }\n'
         '\n'
         '  ArrayRef<TemplateArgument> template_arguments() const {\n'),
        ('inline bool Type::isMemberPointerType() const {\n',
         'inline CXXRecordDecl *\n'
         'MemberPointerType::IwyuQualifierProxy::getAsRecordDecl() const {\n'
         '  return T->getAsCXXRecordDecl();\n'
         '}\n\n'
         'inline bool Type::isMemberPointerType() const {\n'),
    ], out)
    patch('clang/AST/OperationKinds.h', [
        ('enum CastKind {\n#define CAST_OPERATION(Name) CK_##Name,\n'
         '#include "clang/AST/OperationKinds.def"\n',
         'enum CastKind {\n#define CAST_OPERATION(Name) CK_##Name,\n'
         '#include "clang/AST/OperationKinds.def"\n'
         '  CK_HLSLElementwiseCast, CK_HLSLAggregateSplatCast,\n'),
    ], out)


if __name__ == '__main__':
    main()
