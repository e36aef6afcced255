From 6e8b1bf0dd2ba45ec97b37a2fb677b5d80e037f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:49 +0000
Subject: [PATCH 01/75] fix: keep int16 arithmetic results within 16 bits

The operands were truncated but the result was stored as a plain int, so an
int16 variable could hold values such as 32768 after an addition.
---
 .../Core/Core/Runtime/BuildInTypes/Int16Type.cpp   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
index 590816b..a83c8b7 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
@@ -150,7 +150,7 @@ void Int16Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) / static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) / static_cast<int16_t>( other->getValue().toInt() ) );
 		return;
 	}
 
@@ -285,7 +285,7 @@ void Int16Type::operator_multiply( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) * static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) * static_cast<int16_t>( other->getValue().toInt() ) );
 		return;
 	}
 
@@ -305,7 +305,7 @@ void Int16Type::operator_plus( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) + static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) + static_cast<int16_t>( other->getValue().toInt() ) );
 		return;
 	}
 
@@ -325,7 +325,7 @@ void Int16Type::operator_subtract( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) - static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) - static_cast<int16_t>( other->getValue().toInt() ) );
 		return;
 	}
 
@@ -334,17 +334,17 @@ void Int16Type::operator_subtract( const Object* other )
 
 void Int16Type::operator_unary_decrement()
 {
-	mValue = static_cast<int16_t>( mValue.toInt() ) - 1;
+	mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) - 1 );
 }
 
 void Int16Type::operator_unary_increment()
 {
-	mValue = static_cast<int16_t>( mValue.toInt() ) + 1;
+	mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) + 1 );
 }
 
 void Int16Type::operator_unary_minus()
 {
-	mValue = static_cast<int16_t>( mValue.toInt() ) * -1;
+	mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) * -1 );
 }
 
 void Int16Type::operator_unary_not()
-- 
2.43.0


From 66cf1fc85d3c03e177a5ed8d88c6018b344b9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:01 +0000
Subject: [PATCH 02/75] fix: report integer division by zero instead of
 crashing

Dividing or taking the remainder by zero killed the interpreter with SIGFPE,
and so did the smallest int or int64 divided by -1. Division by zero is now
an invalid operation, and division by -1 negates.
---
 .../Core/Core/Runtime/BuildInTypes/Int16Type.cpp | 12 ++++++++++--
 .../Core/Core/Runtime/BuildInTypes/Int32Type.cpp | 16 ++++++++++++++--
 .../Core/Core/Runtime/BuildInTypes/Int64Type.cpp | 16 ++++++++++++++--
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
index a83c8b7..bcad76a 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
@@ -150,7 +150,11 @@ void Int16Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) / static_cast<int16_t>( other->getValue().toInt() ) );
+		const auto divisor = static_cast<int16_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) / divisor );
 		return;
 	}
 
@@ -265,7 +269,11 @@ void Int16Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) % static_cast<int16_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int16_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) % divisor );
 		return;
 	}
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
index cb2d385..5c0e333 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
@@ -150,7 +150,15 @@ void Int32Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int32_t>( mValue.toInt() ) / static_cast<int32_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int32_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+		if ( divisor == -1 ) {	// avoid overflow trap for the smallest value
+			operator_unary_minus();
+			return;
+		}
+		mValue = static_cast<int32_t>( mValue.toInt() ) / divisor;
 		return;
 	}
 
@@ -265,7 +273,11 @@ void Int32Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int32_t>( mValue.toInt() ) % static_cast<int32_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int32_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+		mValue = divisor == -1 ? static_cast<int32_t>( 0 ) : static_cast<int32_t>( static_cast<int32_t>( mValue.toInt() ) % divisor );
 		return;
 	}
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
index 45eb3bb..62b741a 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
@@ -150,7 +150,15 @@ void Int64Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
 		 other->isEnumerationValue() ) {
-		mValue = static_cast<int64_t>( mValue.toInt() ) / static_cast<int64_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int64_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+		if ( divisor == -1 ) {	// avoid overflow trap for the smallest value
+			operator_unary_minus();
+			return;
+		}
+		mValue = static_cast<int64_t>( mValue.toInt() ) / divisor;
 		return;
 	}
 
@@ -265,7 +273,11 @@ void Int64Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
 		 other->isEnumerationValue() ) {
-		mValue = static_cast<int64_t>( mValue.toInt() ) % static_cast<int64_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int64_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+		mValue = divisor == -1 ? static_cast<int64_t>( 0 ) : static_cast<int64_t>( static_cast<int64_t>( mValue.toInt() ) % divisor );
 		return;
 	}
 
-- 
2.43.0


From a7a74492bf61806c76a0a1b4029ad0f9899ba9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:50 +0000
Subject: [PATCH 03/75] fix: do not join operator characters separated by white
 space

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 32858d3..35fcf7b 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -306,6 +306,11 @@ void Tokenizer::mergeOperators()
 		bool changed{ false };
 		Token::Type::E activeType{ token->type() };
 
+		// only directly adjacent characters form an operator (i.e. 'a - -b' is not 'a--b')
+		if ( !tmp.empty() && (tmp.back().position().mLine != token->position().mLine || tmp.back().position().mColumn + 1 != token->position().mColumn) ) {
+			lastType = Token::Type::UNKNOWN;
+		}
+
 		if ( (lastType == Token::Type::BITAND) && (activeType == Token::Type::BITAND) ) {
 			// && and
 			changed = true;
-- 
2.43.0


From 46b821c24aa68646f6491e5200d4eba37e89a3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:11 +0000
Subject: [PATCH 04/75] fix: remove the scope of a for loop however the loop is
 left

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 53fed83..9828856 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1020,8 +1020,17 @@ void TreeInterpreter::visitFor(ForStatement* node)
 	// push new scope for loop variable
 	pushScope();
 
+	// pop scope to remove loop variable no matter how the loop is left
+	struct ScopeGuard {
+		TreeInterpreter* mInterpreter;
+		~ScopeGuard() noexcept(false) { mInterpreter->popScope(); }
+	} scopeGuard{ this };
+
 	// execute initialization statement
 	visit(node->mInitialization);
+	if ( mControlFlow != Runtime::ControlFlow::Normal ) {
+		return;
+	}
 
 	Runtime::Object condition;
 	for  ( ; ; ) {
@@ -1049,10 +1058,10 @@ void TreeInterpreter::visitFor(ForStatement* node)
 
 		// execute arbitrary iteration node type
 		visit(node->mIteration);
+		if ( mControlFlow != Runtime::ControlFlow::Normal ) {
+			return;
+		}
 	}
-
-	// pop scope to remove loop variable
-	popScope();
 }
 
 void TreeInterpreter::visitForeach(ForeachStatement* node)
-- 
2.43.0


From 4b6bb96310243402d1f838a1545b91ceb0740941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:02 +0000
Subject: [PATCH 05/75] fix: keep the pending exception while a finally block
 handles its own

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 9828856..b18da95 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1375,6 +1375,7 @@ void TreeInterpreter::visitTry(TryStatement* node)
 
 	// store current control flow and re-set it after finally block has been executed
 	const Runtime::ControlFlow::E tmpControlFlow = mControlFlow;
+	const Runtime::ExceptionData tmpException = mThread->exception();
 
 	// execute finally-block if present
 	if ( node->mFinallyBlock ) {
@@ -1387,6 +1388,7 @@ void TreeInterpreter::visitTry(TryStatement* node)
 	// reset control flow to previous state if not set differently by finally statement
 	if ( mControlFlow == Runtime::ControlFlow::Normal ) {
 		mControlFlow = tmpControlFlow;
+		mThread->exception(tmpException);
 	}
 }
 
-- 
2.43.0


From 8453d51edca58717f65a92f8cb6429b2ef01d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:12 +0000
Subject: [PATCH 06/75] fix: deliver exceptions thrown by the iterator of a
 foreach loop

---
 Projects/Core/Core/AST/TreeInterpreter.cpp     | 16 +++++++++++++++-
 Projects/Core/Core/VirtualMachine/StackFrame.h |  1 +
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index b18da95..f313534 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1211,7 +1211,21 @@ void TreeInterpreter::visitStatement(Statement *node)
 			visitExit(dynamic_cast<ExitStatement*>(node));
 			break;
 		case Statement::StatementType::ForeachStatement:
-			visitForeach(dynamic_cast<ForeachStatement *>(node));
+		{
+			const auto scopes = mFrame->scopeCount();
+			try {
+				visitForeach(dynamic_cast<ForeachStatement *>(node));
+			}
+			catch ( Runtime::ControlFlow::E &e ) {	// the iteration itself has thrown
+				if ( e != Runtime::ControlFlow::Throw ) {
+					throw;
+				}
+				while ( mFrame->scopeCount() > scopes ) {
+					popScope();
+				}
+				mControlFlow = e;
+			}
+		}
 			break;
 		case Statement::StatementType::ForStatement:
 			visitFor(dynamic_cast<ForStatement*>(node));
diff --git a/Projects/Core/Core/VirtualMachine/StackFrame.h b/Projects/Core/Core/VirtualMachine/StackFrame.h
index 84b13e1..3eaecd9 100644
--- a/Projects/Core/Core/VirtualMachine/StackFrame.h
+++ b/Projects/Core/Core/VirtualMachine/StackFrame.h
@@ -48,6 +48,7 @@ public:
 	IScope* getScope() const;
 	void popScope();
 	void pushScope(IScope* scope, bool allowDelete, bool allowBreakAndContinue);
+	size_t scopeCount() const { return mScopeStack.size(); }
 
 	const TokenList& getTokens() const;
 	void popTokens();
-- 
2.43.0


From 2888b103a508cba9fa3fb05fafdcf02357f787e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:12 +0000
Subject: [PATCH 07/75] fix: evaluate the parameters of a chained method call
 in the caller's scope

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 18 +++++++++++-------
 Projects/Core/Core/AST/TreeInterpreter.h   |  2 +-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index f313534..9891ebe 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -265,7 +265,7 @@ void TreeInterpreter::evaluateLiteral(LiteralExpression* exp, Runtime::Object* r
 	}
 }
 
-void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result)
+void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result, IScope* scope)
 {
 	std::list<Runtime::Object> objectList;	// this is a hack to prevent that the provided object parameters run out of scope
 	ParameterList params;
@@ -280,7 +280,9 @@ void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::O
 		params.emplace_back(Parameter::CreateRuntime(param->QualifiedOuterface(), param->getValue(), param->getReference()));
 	}
 
-	IScope* scope = getScope();
+	if ( !scope ) {
+		scope = getScope();
+	}
 
 	MethodSymbol* methodSymbol = resolveMethod(scope, exp->mSymbolExpression, params, Visibility::Private);
 	if ( !methodSymbol ) {
@@ -359,12 +361,14 @@ void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Obj
 	Runtime::Object left;
 	evaluate(exp->mLHS, &left);
 
-	pushScope(&left);
-
 	Runtime::Object right;
-	evaluate(exp->mRHS, &right);
-
-	popScope();
+	if ( exp->mRHS->getExpressionType() == Expression::ExpressionType::MethodExpression ) {
+		// the parameters belong to our scope, only the method belongs to the left object
+		evaluateMethodExpression(dynamic_cast<MethodExpression*>(exp->mRHS), &right, &left);
+	}
+	else {
+		evaluateSymbolExpression(dynamic_cast<SymbolExpression*>(exp->mRHS), &right, &left);
+	}
 
 	*result = right;
 }
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index a27ec9f..29d424b 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -98,7 +98,7 @@ private:
 	void evaluateCopyExpression(CopyExpression* exp, Runtime::Object* result);
 	void evaluateIsExpression(IsExpression* exp, Runtime::Object* result);
 	void evaluateLiteral(LiteralExpression* exp, Runtime::Object* result);
-	void evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result);
+	void evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result, IScope* scope = nullptr);
 	void evaluateNewExpression(NewExpression* exp, Runtime::Object* result);
 	void evaluateScopeExpression(ScopeExpression* exp, Runtime::Object* result);
 	void evaluateStringEvalExpression(StringEvalExpression* exp, Runtime::Object* result, IScope* scope);
-- 
2.43.0


From f081235eb262113deea21967006dac90d194f6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:14 +0000
Subject: [PATCH 08/75] fix: let !& yield true when only the right operand is
 false

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 9891ebe..2de2394 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -202,7 +202,7 @@ void TreeInterpreter::evaluateBooleanBinaryExpression(BooleanBinaryExpression* e
 		// boolean expressions
 		// {
 		case Token::Type::AND:  *result = Runtime::BoolType(leftResult && isTrue(right)); break;
-		case Token::Type::NAND: *result = Runtime::BoolType(!leftResult && !isTrue(right)); break;
+		case Token::Type::NAND: *result = Runtime::BoolType(!leftResult || !isTrue(right)); break;
 		case Token::Type::NOR:  *result = Runtime::BoolType(!leftResult || !isTrue(right)); break;
 		case Token::Type::OR:   *result = Runtime::BoolType(leftResult || isTrue(right)); break;
 		// }
-- 
2.43.0


From 61d4ca54b758ba56c6f0a1e850d23980265637da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:55 +0000
Subject: [PATCH 09/75] fix: release the old object when a variable is assigned
 a null value

---
 Projects/Core/Core/Object.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index e0fe925..7c2fc91 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -109,6 +109,9 @@ void Object::assign(const Object& other)
 			assignReference(other.mReference);
 		}
 		else {
+			if ( !mIsAtomicType ) {	// release the previously referenced object
+				assignReference(Reference());
+			}
 			setValue(other.getValue());
 		}
 	}
-- 
2.43.0


From 89c23e6ff7800c8ba22092f635742591c2d8916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:43 +0000
Subject: [PATCH 10/75] fix: destroy the members of an object's base class
 together with the object

---
 Projects/Core/Core/Object.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 7c2fc91..0bf8c0a 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -54,6 +54,15 @@ Object::~Object()
 	if ( this != mThis ) {
 		Controller::Instance().memory()->remove(mReference);
 	}
+
+	// our base object is owned by us alone, so its members have to be released with ours
+	auto base = mSymbols.find(IDENTIFIER_BASE);
+	if ( base != mSymbols.end() ) {
+		auto* symbol = base->second;
+
+		mSymbols.erase(base);
+		delete symbol;
+	}
 }
 
 Object& Object::operator= (const Object& other)
-- 
2.43.0


From 3bb9054aaa51e191e62fbe88f7a6cc7f8b0cfbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:43 +0000
Subject: [PATCH 11/75] fix: keep objects referencing each other from being
 deleted twice at shutdown

---
 Projects/Core/Core/VirtualMachine/Memory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index eb4fdd1..d73de22 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -47,6 +47,11 @@ void Memory::add(const Runtime::Reference& ref)
 
 void Memory::deinit()
 {
+	// prevent objects that reference each other from being deleted more than once
+	for ( auto& it : mMemory ) {
+		it.second.mCount++;
+	}
+
 	for ( auto& it : mMemory ) {
 		/*
 		if( it.second.mObject ) {
-- 
2.43.0


From 8edec8e259cdc783ad2bc3b0037561420da70eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:32 +0000
Subject: [PATCH 12/75] fix: destroy objects held by global variables before
 their scripts are released

---
 .../Core/VirtualMachine/VirtualMachine.cpp    | 1017 +++++++++--------
 1 file changed, 521 insertions(+), 496 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 02afab8..28fdc6c 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -1,496 +1,521 @@
-
-// Header
-#include "VirtualMachine.h"
-
-// Library includes
-#ifdef _WIN32
-	// Extension loading is not supported under Windows
-#else
-#include <dirent.h>
-#endif
-#include <fstream>
-#include <vector>
-
-// Project includes
-#include <Core/AST/TreeGenerator.h>
-#include <Core/Common/Exceptions.h>
-#include <Core/Defines.h>
-#include <Core/Designtime/Analyser.h>
-#include <Core/Runtime/Script.h>
-#include <Logger/Logger.h>
-#include <Tools/Files.h>
-#include <Tools/Strings.h>
-#include <Utils.h>
-#include "Controller.h"
-
-// Namespace declarations
-
-
-namespace {
-
-	std::string buildFilename( const std::string& folder, const std::string& filename );
-
-}
-
-namespace Slang {
-
-
-#ifdef _WIN32
-	// Extension loading is not supported under Windows
-#else
-void read_directory(const std::string& dirname, std::vector<std::string>& files)
-{
-	DIR* dirp = opendir(dirname.c_str());
-	if ( !dirp ) {
-		// couldn't opern directory
-		return;
-	}
-
-	dirent* dp;
-
-	while ( (dp = readdir(dirp)) != nullptr ) {
-		std::string file(dp->d_name);
-
-		if ( file != "." && file != ".." ) {
-			files.push_back(dirname + "/" + file);
-		}
-	}
-
-	closedir(dirp);
-}
-#endif
-
-
-VirtualMachine::VirtualMachine()
-: mIsInitialized(false)
-{
-	Controller::Instance().init();
-}
-
-VirtualMachine::~VirtualMachine()
-{
-	for ( auto& script : mScripts ) {
-		delete script;
-	}
-	mScripts.clear();
-
-	Controller::Instance().deinit();
-
-	for ( const auto& extension : mExtensions ) {
-		delete extension;
-	}
-	mExtensions.clear();
-}
-
-bool VirtualMachine::addExtension( Extensions::AExtension* extension, const std::string& library )
-{
-	if ( !extension ) {
-		// provided an invalid extension - ignore it...
-		OSerror( "invalid extension '" + library + "' detected!" );
-
-		return false;
-	}
-
-	OSdebug( "Loaded extension " + extension->getName() + " version " + extension->getVersion() );
-
-	try {
-		OSdebug( "adding extension '" + extension->getName() + "'" );
-
-		auto* globalScope = Controller::Instance().globalScope();
-		Extensions::ExtensionMethods methods;
-
-		extension->initialize( globalScope );
-		extension->provideMethods( methods );
-
-		if ( !mSpecification.empty() ) {
-			mSpecification.push_back( "" );
-		}
-		mSpecification.push_back( "Extension " + extension->getName() + ":" );
-		mSpecification.push_back( "---" );
-
-		for ( auto& method : methods ) {
-			OSdebug( "adding extension method '" + extension->getName() + "." + method->getName() + "'" );
-
-			method->setParent( globalScope );
-
-			globalScope->defineMethod( method->getName(), method );
-
-			mSpecification.push_back( method->ToString() );
-		}
-	}
-	catch ( std::exception &e ) {
-		OSerror( "error while loading extension: " + std::string( e.what() ) );
-	}
-
-	mExtensions.push_back( extension );
-
-	return true;
-}
-
-void VirtualMachine::addLibraryFolder(const std::string& libraryFolder )
-{
-	if ( libraryFolder .empty() ) {
-		return;
-	}
-
-#ifdef _MSC_VER
-	auto folder = Utils::Tools::Files::GetFullname( libraryFolder  + "/" );
-#else
-	auto folder = Utils::Tools::Files::GetFullname( libraryFolder  ) + "/";
-#endif
-
-	if ( mLibraryFolders.find( folder ) == mLibraryFolders.end() ) {
-		mLibraryFolders.insert( folder );
-	}
-}
-
-Script* VirtualMachine::createScript(const std::string& content)
-{
-	if ( !mIsInitialized ) {
-		init();
-	}
-
-	auto* script = new Script();
-
-	mScripts.insert( script );
-
-	Designtime::Analyser analyser( mSettings.DoSanityCheck, mSettings.PrintTokens );
-	analyser.processString( content, mScriptFile );
-
-	// load all extension references
-	auto extensions = analyser.getExtensionReferences();
-	for ( const auto& extension : extensions ) {
-		if ( !loadExtension( extension, (*mLibraryFolders.begin()) ) ) {
-			throw Common::Exceptions::Exception( "could not load extension '" + extension + "' from '" + (*mLibraryFolders.begin()) + "'" );
-		}
-	}
-
-	// load all library references
-	auto libraryImports = analyser.getLibraryReferences();
-	for ( const auto& file : libraryImports ) {
-		bool imported{ false };
-
-		for ( const auto& folder : mLibraryFolders ) {
-			if ( loadLibrary( buildFilename( folder, file ), mScriptFile ) ) {
-				imported = true;
-				break;
-			}
-		}
-
-		if ( !imported ) {
-			throw Common::Exceptions::Exception( "could not resolve import '" + file + "'" );
-		}
-	}
-
-	auto* globalScope = Controller::Instance().globalScope();
-
-	Controller::Instance().repository()->initializeBlueprints();
-
-	Controller::Instance().phase(Controller::Phase::Generation);
-
-	AST::TreeGenerator generator( Controller::Instance().repository(), mSettings.DoCollectErrors );
-	generator.process(globalScope);
-
-	auto errors = generator.hasErrors();
-	if ( errors ) {
-		throw Common::Exceptions::Exception(Utils::Tools::toString(errors) + " error(s) during AST generation detected!");
-	}
-
-#ifdef USE_AST_OPTIMIZATION
-
-	Controller::Instance().phase(Controller::Phase::Optimization);
-
-	AST::TreeOptimizer optimizer;
-	optimizer.process(globalScope);
-
-#endif
-
-	return script;
-}
-
-Script* VirtualMachine::createScriptFromFile(const std::string& filename)
-{
-	OSdebug("processing script '" + filename + "'...");
-
-	if ( filename.empty() ) {
-		OSerror("invalid filename '" + filename + "' provided!");
-		throw Common::Exceptions::Exception("invalid filename '" + filename + "' provided!");
-	}
-	if ( !Utils::Tools::Files::exists(filename) ) {
-		OSerror("file '" + filename + "' not found!");
-		throw Common::Exceptions::Exception("file '" + filename + "' not found!");
-	}
-
-	// open file
-	std::ifstream in(filename.c_str(), std::ios_base::binary);
-
-	// read file content
-	auto content = std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
-
-	addLibraryFolder(Utils::Tools::Files::ExtractPathname(Utils::Tools::Files::GetFullname(filename)));
-	mScriptFile = Utils::Tools::Files::GetFullname(filename);
-
-	return createScript(content);
-}
-
-Script* VirtualMachine::createScriptFromString(const std::string& content)
-{
-	OSdebug("processing string...");
-
-	mScriptFile = "";
-
-	return createScript(content);
-}
-
-void VirtualMachine::init()
-{
-	OSdebug( "initializing virtual machine..." );
-
-	auto* homepath = getenv( SLANG_LIBRARY );
-	if ( homepath ) {
-		std::string path( homepath );
-
-		while ( !path.empty() ) {
-			std::string left;
-			std::string right;
-
-			Utils::Tools::splitBy( path, ':', left, right );
-			addLibraryFolder( left );
-
-			path = right;
-		}
-	}
-
-	if ( !mSettings.DoSkipExtensions ) {
-#ifdef _WIN32
-		// Extension loading is not supported under Windows
-#else
-		OSdebug( "loading extensions..." );
-
-		std::vector<std::string> sharedLibraries;
-		read_directory( SHARED_EXTENSION_DIRECTORY, sharedLibraries );
-
-		// load installed shared libraries
-		for ( const std::string& library : sharedLibraries ) {
-			addExtension( mExtensionManager.load( library ), library );
-		}
-#endif
-	}
-
-	mIsInitialized = true;
-}
-
-bool VirtualMachine::loadExtension( const std::string& extension, const std::string& folder )
-{
-	auto library = folder + extension;
-
-#if defined __APPLE__
-	library += ".dylib";
-#elif defined __linux
-	library += ".so";
-#endif
-
-#if defined _MSC_VER
-	OSerror("Extension loading is not support under your OS!");
-
-	return false;
-#else
-	OSdebug( "Loading extension '" + library + "'" );
-
-	return addExtension( mExtensionManager.load( library ), library );
-#endif
-}
-
-bool VirtualMachine::loadLibrary(const std::string& library, const std::string& fromLibrary)
-{
-	OSdebug( "loading library file '" + library + "' from file '" + fromLibrary + "'..." );
-
-	if ( !Utils::Tools::Files::exists( library ) ) {
-		// provided library file doesn't exist!
-		return false;
-	}
-
-	if ( mImportedLibraries.find( library ) != mImportedLibraries.end() ) {
-		OSdebug( "Ignoring already imported file '" + library + "'" );
-		return true;
-	}
-
-	auto currentFolder = Utils::Tools::Files::ExtractPathname( library );
-	addLibraryFolder( currentFolder );
-
-	mImportedLibraries.insert( library );
-
-	Designtime::Analyser analyser( mSettings.DoSanityCheck, mSettings.PrintTokens );
-	analyser.processFile( library );
-
-	// load all extension references
-	auto extensions = analyser.getExtensionReferences();
-	for ( const auto& extension : extensions ) {
-		if ( !loadExtension( extension, currentFolder ) ) {
-			throw Common::Exceptions::Exception( "could not load extension '" + extension + "' from '" + currentFolder + "'" );
-		}
-	}
-
-	auto librariesFolders = mLibraryFolders;
-	librariesFolders.insert( librariesFolders.begin(), currentFolder );
-
-	// load all library references
-	auto libraryImports = analyser.getLibraryReferences();
-
-	// (1) first try to resolve relative to the current file
-	for ( auto libIt = libraryImports.begin(); libIt != libraryImports.end(); ) {
-		if ( loadLibrary( buildFilename( currentFolder, *libIt ), library ) ) {
-			libIt = libraryImports.erase( libIt );
-		}
-		else {
-			++libIt;
-		}
-	}
-
-	// (2) then try to resolve via the library folders
-	for ( const auto& file : libraryImports ) {
-		bool imported{ false };
-
-		for ( const auto& folder : librariesFolders ) {
-			if ( loadLibrary( buildFilename( folder, file ), library ) ) {
-				imported = true;
-				break;
-			}
-		}
-
-		if ( !imported ) {
-			throw Common::Exceptions::Exception( "could not resolve import '" + file + "' in file '" + library + "'" );
-		}
-	}
-
-	return true;
-}
-
-void VirtualMachine::printExtensions()
-{
-	std::cout << std::endl;
-	std::cout << "Extensions:" << std::endl;
-
-	for ( const auto& extension : mExtensions ) {
-		std::cout << extension->getName();
-
-		if ( !extension->getVersion().empty() ) {
-			std::cout << " version " << extension->getVersion();
-		}
-
-		std::cout << std::endl;
-	}
-
-	std::cout << std::endl;
-}
-
-void VirtualMachine::printLibraryFolders()
-{
-	std::cout << "Libraries:" << std::endl;
-
-	for ( const auto& libraryFolder : mLibraryFolders ) {
-		std::cout << libraryFolder << std::endl;
-	}
-}
-
-void VirtualMachine::printSpecification( const std::string& specification )
-{
-	if ( specification.empty() ) {
-		for ( const auto& str : mSpecification ) {
-			std::cout << str << std::endl;
-		}
-
-		return;
-	}
-
-	int32_t found{ 0 };
-	for ( const auto& str : mSpecification ) {
-		if ( str.find( specification ) != std::string::npos ) {
-            std::cout << str << std::endl;
-
-            found++;
-		}
-	}
-
-	if ( found ) {
-		//std::cout << std::endl;
-		//std::cout << "found " << found << " occurrence(s) of " << specification << std::endl;
-	}
-	else {
-		std::cout << "no result found for '" << specification << "'" << std::endl;
-	}
-}
-
-void VirtualMachine::run(Script* script, const ParameterList& params, Runtime::Object* result)
-{
-	if ( !script ) {
-		throw Common::Exceptions::Exception("provided invalid script to run!");
-	}
-
-	Controller::Instance().phase(Controller::Phase::Execution);
-
-	MethodScope* globalScope = Controller::Instance().globalScope();
-
-	auto* main = dynamic_cast<Common::Method*>(globalScope->resolveMethod("Main", params, false));
-	if ( !main ) {
-		throw Common::Exceptions::Exception("could not resolve method 'Main(" + toString(params) + ")'");
-	}
-
-	auto* thread = Controller::Instance().threads()->createThread();
-
-	auto controlflow = thread->execute(nullptr, main, params, result);
-	if ( controlflow == Runtime::ControlFlow::Throw ) {
-		throw Runtime::ControlFlow::Throw;
-	}
-}
-
-void VirtualMachine::runScriptFromFile(const std::string &filename, const ParameterList &params, Runtime::Object *result)
-{
-	auto* script = createScriptFromFile(filename);
-
-	run(script, params, result);
-}
-
-void VirtualMachine::runScriptFromString(const std::string &content, const ParameterList &params, Runtime::Object *result)
-{
-	auto* script = createScriptFromString(content);
-
-	run(script, params, result);
-}
-
-VirtualMachine::Settings& VirtualMachine::settings()
-{
-	return mSettings;
-}
-
-
-}
-
-namespace {
-
-	std::string buildFilename( const std::string& folder, const std::string& filename ) {
-		auto path = Utils::Tools::Files::BuildPath( folder, filename );
-
-		// (1) look for a ".slang" file (new standard)
-		auto file = path + ".slang";
-		if ( Utils::Tools::Files::exists( file ) ) {
-			return file;
-		}
-
-		// (2) look for a ".os" file (deprecated)
-		file = path + ".os";
-		if ( Utils::Tools::Files::exists( file ) ) {
-			return file;
-		}
-
-		// (3) look for an "All.slang" file (new standard)
-		file = Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".slang";
-		if ( Utils::Tools::Files::exists( file ) ) {
-			return file;
-		}
-
-		// (4) look for an "All.os" file as a last resort (deprecated)
-		return Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".os";
-	}
-
-}
+
+// Header
+#include "VirtualMachine.h"
+
+// Library includes
+#ifdef _WIN32
+	// Extension loading is not supported under Windows
+#else
+#include <dirent.h>
+#endif
+#include <fstream>
+#include <vector>
+
+// Project includes
+#include <Core/AST/TreeGenerator.h>
+#include <Core/Common/Exceptions.h>
+#include <Core/Common/Namespace.h>
+#include <Core/Defines.h>
+#include <Core/Designtime/Analyser.h>
+#include <Core/Runtime/Script.h>
+#include <Logger/Logger.h>
+#include <Tools/Files.h>
+#include <Tools/Strings.h>
+#include <Utils.h>
+#include "Controller.h"
+
+// Namespace declarations
+
+
+namespace {
+
+	std::string buildFilename( const std::string& folder, const std::string& filename );
+
+}
+
+namespace Slang {
+
+
+#ifdef _WIN32
+	// Extension loading is not supported under Windows
+#else
+void read_directory(const std::string& dirname, std::vector<std::string>& files)
+{
+	DIR* dirp = opendir(dirname.c_str());
+	if ( !dirp ) {
+		// couldn't opern directory
+		return;
+	}
+
+	dirent* dp;
+
+	while ( (dp = readdir(dirp)) != nullptr ) {
+		std::string file(dp->d_name);
+
+		if ( file != "." && file != ".." ) {
+			files.push_back(dirname + "/" + file);
+		}
+	}
+
+	closedir(dirp);
+}
+#endif
+
+
+VirtualMachine::VirtualMachine()
+: mIsInitialized(false)
+{
+	Controller::Instance().init();
+}
+
+// releases all objects referenced by global variables
+static void releaseObjects(MethodScope* scope)
+{
+	for ( auto it = scope->beginSymbols(); it != scope->endSymbols(); ++it ) {
+		if ( auto* object = dynamic_cast<Runtime::Object*>( it->second ) ) {
+			if ( !object->isAtomicType() ) {
+				object->assign(Runtime::Object());
+			}
+		}
+		else if ( auto* child = dynamic_cast<MethodScope*>( it->second ) ) {
+			releaseObjects(child);
+		}
+	}
+}
+
+
+VirtualMachine::~VirtualMachine()
+{
+	try {
+		// destructors can only be executed as long as our scripts exist
+		releaseObjects(Controller::Instance().globalScope());
+	}
+	catch ( ... ) {
+		OSerror("exception thrown during release of global objects");
+	}
+
+	for ( auto& script : mScripts ) {
+		delete script;
+	}
+	mScripts.clear();
+
+	Controller::Instance().deinit();
+
+	for ( const auto& extension : mExtensions ) {
+		delete extension;
+	}
+	mExtensions.clear();
+}
+
+bool VirtualMachine::addExtension( Extensions::AExtension* extension, const std::string& library )
+{
+	if ( !extension ) {
+		// provided an invalid extension - ignore it...
+		OSerror( "invalid extension '" + library + "' detected!" );
+
+		return false;
+	}
+
+	OSdebug( "Loaded extension " + extension->getName() + " version " + extension->getVersion() );
+
+	try {
+		OSdebug( "adding extension '" + extension->getName() + "'" );
+
+		auto* globalScope = Controller::Instance().globalScope();
+		Extensions::ExtensionMethods methods;
+
+		extension->initialize( globalScope );
+		extension->provideMethods( methods );
+
+		if ( !mSpecification.empty() ) {
+			mSpecification.push_back( "" );
+		}
+		mSpecification.push_back( "Extension " + extension->getName() + ":" );
+		mSpecification.push_back( "---" );
+
+		for ( auto& method : methods ) {
+			OSdebug( "adding extension method '" + extension->getName() + "." + method->getName() + "'" );
+
+			method->setParent( globalScope );
+
+			globalScope->defineMethod( method->getName(), method );
+
+			mSpecification.push_back( method->ToString() );
+		}
+	}
+	catch ( std::exception &e ) {
+		OSerror( "error while loading extension: " + std::string( e.what() ) );
+	}
+
+	mExtensions.push_back( extension );
+
+	return true;
+}
+
+void VirtualMachine::addLibraryFolder(const std::string& libraryFolder )
+{
+	if ( libraryFolder .empty() ) {
+		return;
+	}
+
+#ifdef _MSC_VER
+	auto folder = Utils::Tools::Files::GetFullname( libraryFolder  + "/" );
+#else
+	auto folder = Utils::Tools::Files::GetFullname( libraryFolder  ) + "/";
+#endif
+
+	if ( mLibraryFolders.find( folder ) == mLibraryFolders.end() ) {
+		mLibraryFolders.insert( folder );
+	}
+}
+
+Script* VirtualMachine::createScript(const std::string& content)
+{
+	if ( !mIsInitialized ) {
+		init();
+	}
+
+	auto* script = new Script();
+
+	mScripts.insert( script );
+
+	Designtime::Analyser analyser( mSettings.DoSanityCheck, mSettings.PrintTokens );
+	analyser.processString( content, mScriptFile );
+
+	// load all extension references
+	auto extensions = analyser.getExtensionReferences();
+	for ( const auto& extension : extensions ) {
+		if ( !loadExtension( extension, (*mLibraryFolders.begin()) ) ) {
+			throw Common::Exceptions::Exception( "could not load extension '" + extension + "' from '" + (*mLibraryFolders.begin()) + "'" );
+		}
+	}
+
+	// load all library references
+	auto libraryImports = analyser.getLibraryReferences();
+	for ( const auto& file : libraryImports ) {
+		bool imported{ false };
+
+		for ( const auto& folder : mLibraryFolders ) {
+			if ( loadLibrary( buildFilename( folder, file ), mScriptFile ) ) {
+				imported = true;
+				break;
+			}
+		}
+
+		if ( !imported ) {
+			throw Common::Exceptions::Exception( "could not resolve import '" + file + "'" );
+		}
+	}
+
+	auto* globalScope = Controller::Instance().globalScope();
+
+	Controller::Instance().repository()->initializeBlueprints();
+
+	Controller::Instance().phase(Controller::Phase::Generation);
+
+	AST::TreeGenerator generator( Controller::Instance().repository(), mSettings.DoCollectErrors );
+	generator.process(globalScope);
+
+	auto errors = generator.hasErrors();
+	if ( errors ) {
+		throw Common::Exceptions::Exception(Utils::Tools::toString(errors) + " error(s) during AST generation detected!");
+	}
+
+#ifdef USE_AST_OPTIMIZATION
+
+	Controller::Instance().phase(Controller::Phase::Optimization);
+
+	AST::TreeOptimizer optimizer;
+	optimizer.process(globalScope);
+
+#endif
+
+	return script;
+}
+
+Script* VirtualMachine::createScriptFromFile(const std::string& filename)
+{
+	OSdebug("processing script '" + filename + "'...");
+
+	if ( filename.empty() ) {
+		OSerror("invalid filename '" + filename + "' provided!");
+		throw Common::Exceptions::Exception("invalid filename '" + filename + "' provided!");
+	}
+	if ( !Utils::Tools::Files::exists(filename) ) {
+		OSerror("file '" + filename + "' not found!");
+		throw Common::Exceptions::Exception("file '" + filename + "' not found!");
+	}
+
+	// open file
+	std::ifstream in(filename.c_str(), std::ios_base::binary);
+
+	// read file content
+	auto content = std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
+
+	addLibraryFolder(Utils::Tools::Files::ExtractPathname(Utils::Tools::Files::GetFullname(filename)));
+	mScriptFile = Utils::Tools::Files::GetFullname(filename);
+
+	return createScript(content);
+}
+
+Script* VirtualMachine::createScriptFromString(const std::string& content)
+{
+	OSdebug("processing string...");
+
+	mScriptFile = "";
+
+	return createScript(content);
+}
+
+void VirtualMachine::init()
+{
+	OSdebug( "initializing virtual machine..." );
+
+	auto* homepath = getenv( SLANG_LIBRARY );
+	if ( homepath ) {
+		std::string path( homepath );
+
+		while ( !path.empty() ) {
+			std::string left;
+			std::string right;
+
+			Utils::Tools::splitBy( path, ':', left, right );
+			addLibraryFolder( left );
+
+			path = right;
+		}
+	}
+
+	if ( !mSettings.DoSkipExtensions ) {
+#ifdef _WIN32
+		// Extension loading is not supported under Windows
+#else
+		OSdebug( "loading extensions..." );
+
+		std::vector<std::string> sharedLibraries;
+		read_directory( SHARED_EXTENSION_DIRECTORY, sharedLibraries );
+
+		// load installed shared libraries
+		for ( const std::string& library : sharedLibraries ) {
+			addExtension( mExtensionManager.load( library ), library );
+		}
+#endif
+	}
+
+	mIsInitialized = true;
+}
+
+bool VirtualMachine::loadExtension( const std::string& extension, const std::string& folder )
+{
+	auto library = folder + extension;
+
+#if defined __APPLE__
+	library += ".dylib";
+#elif defined __linux
+	library += ".so";
+#endif
+
+#if defined _MSC_VER
+	OSerror("Extension loading is not support under your OS!");
+
+	return false;
+#else
+	OSdebug( "Loading extension '" + library + "'" );
+
+	return addExtension( mExtensionManager.load( library ), library );
+#endif
+}
+
+bool VirtualMachine::loadLibrary(const std::string& library, const std::string& fromLibrary)
+{
+	OSdebug( "loading library file '" + library + "' from file '" + fromLibrary + "'..." );
+
+	if ( !Utils::Tools::Files::exists( library ) ) {
+		// provided library file doesn't exist!
+		return false;
+	}
+
+	if ( mImportedLibraries.find( library ) != mImportedLibraries.end() ) {
+		OSdebug( "Ignoring already imported file '" + library + "'" );
+		return true;
+	}
+
+	auto currentFolder = Utils::Tools::Files::ExtractPathname( library );
+	addLibraryFolder( currentFolder );
+
+	mImportedLibraries.insert( library );
+
+	Designtime::Analyser analyser( mSettings.DoSanityCheck, mSettings.PrintTokens );
+	analyser.processFile( library );
+
+	// load all extension references
+	auto extensions = analyser.getExtensionReferences();
+	for ( const auto& extension : extensions ) {
+		if ( !loadExtension( extension, currentFolder ) ) {
+			throw Common::Exceptions::Exception( "could not load extension '" + extension + "' from '" + currentFolder + "'" );
+		}
+	}
+
+	auto librariesFolders = mLibraryFolders;
+	librariesFolders.insert( librariesFolders.begin(), currentFolder );
+
+	// load all library references
+	auto libraryImports = analyser.getLibraryReferences();
+
+	// (1) first try to resolve relative to the current file
+	for ( auto libIt = libraryImports.begin(); libIt != libraryImports.end(); ) {
+		if ( loadLibrary( buildFilename( currentFolder, *libIt ), library ) ) {
+			libIt = libraryImports.erase( libIt );
+		}
+		else {
+			++libIt;
+		}
+	}
+
+	// (2) then try to resolve via the library folders
+	for ( const auto& file : libraryImports ) {
+		bool imported{ false };
+
+		for ( const auto& folder : librariesFolders ) {
+			if ( loadLibrary( buildFilename( folder, file ), library ) ) {
+				imported = true;
+				break;
+			}
+		}
+
+		if ( !imported ) {
+			throw Common::Exceptions::Exception( "could not resolve import '" + file + "' in file '" + library + "'" );
+		}
+	}
+
+	return true;
+}
+
+void VirtualMachine::printExtensions()
+{
+	std::cout << std::endl;
+	std::cout << "Extensions:" << std::endl;
+
+	for ( const auto& extension : mExtensions ) {
+		std::cout << extension->getName();
+
+		if ( !extension->getVersion().empty() ) {
+			std::cout << " version " << extension->getVersion();
+		}
+
+		std::cout << std::endl;
+	}
+
+	std::cout << std::endl;
+}
+
+void VirtualMachine::printLibraryFolders()
+{
+	std::cout << "Libraries:" << std::endl;
+
+	for ( const auto& libraryFolder : mLibraryFolders ) {
+		std::cout << libraryFolder << std::endl;
+	}
+}
+
+void VirtualMachine::printSpecification( const std::string& specification )
+{
+	if ( specification.empty() ) {
+		for ( const auto& str : mSpecification ) {
+			std::cout << str << std::endl;
+		}
+
+		return;
+	}
+
+	int32_t found{ 0 };
+	for ( const auto& str : mSpecification ) {
+		if ( str.find( specification ) != std::string::npos ) {
+            std::cout << str << std::endl;
+
+            found++;
+		}
+	}
+
+	if ( found ) {
+		//std::cout << std::endl;
+		//std::cout << "found " << found << " occurrence(s) of " << specification << std::endl;
+	}
+	else {
+		std::cout << "no result found for '" << specification << "'" << std::endl;
+	}
+}
+
+void VirtualMachine::run(Script* script, const ParameterList& params, Runtime::Object* result)
+{
+	if ( !script ) {
+		throw Common::Exceptions::Exception("provided invalid script to run!");
+	}
+
+	Controller::Instance().phase(Controller::Phase::Execution);
+
+	MethodScope* globalScope = Controller::Instance().globalScope();
+
+	auto* main = dynamic_cast<Common::Method*>(globalScope->resolveMethod("Main", params, false));
+	if ( !main ) {
+		throw Common::Exceptions::Exception("could not resolve method 'Main(" + toString(params) + ")'");
+	}
+
+	auto* thread = Controller::Instance().threads()->createThread();
+
+	auto controlflow = thread->execute(nullptr, main, params, result);
+	if ( controlflow == Runtime::ControlFlow::Throw ) {
+		throw Runtime::ControlFlow::Throw;
+	}
+}
+
+void VirtualMachine::runScriptFromFile(const std::string &filename, const ParameterList &params, Runtime::Object *result)
+{
+	auto* script = createScriptFromFile(filename);
+
+	run(script, params, result);
+}
+
+void VirtualMachine::runScriptFromString(const std::string &content, const ParameterList &params, Runtime::Object *result)
+{
+	auto* script = createScriptFromString(content);
+
+	run(script, params, result);
+}
+
+VirtualMachine::Settings& VirtualMachine::settings()
+{
+	return mSettings;
+}
+
+
+}
+
+namespace {
+
+	std::string buildFilename( const std::string& folder, const std::string& filename ) {
+		auto path = Utils::Tools::Files::BuildPath( folder, filename );
+
+		// (1) look for a ".slang" file (new standard)
+		auto file = path + ".slang";
+		if ( Utils::Tools::Files::exists( file ) ) {
+			return file;
+		}
+
+		// (2) look for a ".os" file (deprecated)
+		file = path + ".os";
+		if ( Utils::Tools::Files::exists( file ) ) {
+			return file;
+		}
+
+		// (3) look for an "All.slang" file (new standard)
+		file = Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".slang";
+		if ( Utils::Tools::Files::exists( file ) ) {
+			return file;
+		}
+
+		// (4) look for an "All.os" file as a last resort (deprecated)
+		return Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".os";
+	}
+
+}
-- 
2.43.0


From c1c1ab2944e28fce35bcc2c568ae11fd16c55f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:35 +0000
Subject: [PATCH 13/75] fix: order two versions with different labels
 consistently

---
 Projects/Utils/SemVer/Version.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Utils/SemVer/Version.cpp b/Projects/Utils/SemVer/Version.cpp
index ddc98d4..310070a 100644
--- a/Projects/Utils/SemVer/Version.cpp
+++ b/Projects/Utils/SemVer/Version.cpp
@@ -69,6 +69,10 @@ bool SemanticVersionNumber::operator<( const SemanticVersionNumber& other ) cons
 					return mBuildMetadata < other.mBuildMetadata;
 				}
 
+				if ( !mLabel.empty() && !other.mLabel.empty() ) {
+					return mLabel < other.mLabel;
+				}
+
 				return !mLabel.empty();
 			}
 
-- 
2.43.0


From df65b4389dfdab839250b3dd29f3fe37a109d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:17 +0000
Subject: [PATCH 14/75] fix: end a multi line comment at its first closing mark

The '*' of an opening mark was also taken as the beginning of a closing
mark, and the '/' of a closing mark as the beginning of another comment.
---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 35fcf7b..076aeb4 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -435,6 +435,8 @@ void Tokenizer::process()
 			isMultiLineComment = true;
 			// remove last inserted token
 			mTokens.pop_back();
+			// this '*' is not part of the closing '*/'
+			currentChar = 0;
 		}
 
 		if ( !isMultiLineComment && !isSingleLineComment ) {
@@ -480,6 +482,8 @@ void Tokenizer::process()
 		// multi line comments '*/'
 		if ( isMultiLineComment && previousChar == '*' && currentChar == '/' ) {
 			isMultiLineComment = false;
+			// this '/' does not start another comment
+			currentChar = 0;
 		}
 
 		// counting lines and columns
-- 
2.43.0


From 5437f5a9cf0a58cf8c64367baa8294d0086b81c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:17 +0000
Subject: [PATCH 15/75] fix: keep words in front of a '#' comment apart from
 the next line

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 076aeb4..fc9efed 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -423,6 +423,11 @@ void Tokenizer::process()
 		// preprocessor directives as single line comments '#'
 		if ( !isMultiLineComment && !isSingleLineComment && !isString && currentChar == '#' ) {
 			isSingleLineComment = true;
+			// the comment ends the last word
+			if ( !token.empty() ) {
+				addToken(token, pos);
+				token.clear();
+			}
 		}
 		// single line comments '//'
 		else if ( !isMultiLineComment && !isSingleLineComment && !isString && previousChar == '/' && currentChar == '/' ) {
-- 
2.43.0


From fd61543beba1032b92f525c1d1a0f6585b717abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:17 +0000
Subject: [PATCH 16/75] fix: keep the last word of a text without a line break
 at its end

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index fc9efed..c6cdf39 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -505,7 +505,8 @@ void Tokenizer::process()
 		previousChar = currentChar;
 	}
 
-	if ( previousChar != 0 ) {
+	if ( !token.empty() ) {
+		pos.mColumn--;	// the end of the text is not a character
 		addToken(token, pos);
 	}
 
-- 
2.43.0


From 8afa918fa9dc1566b74ef1e3b752f1f5f4796e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:17 +0000
Subject: [PATCH 17/75] fix: keep a word apart from a string literal directly
 behind it

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index c6cdf39..19497b4 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -454,6 +454,12 @@ void Tokenizer::process()
 			}
 			else {
 				if ( currentChar == '"' ) {
+					// a literal ends the last word
+					if ( !isString && !token.empty() ) {
+						addToken(token, pos);
+						token.clear();
+					}
+
 					isString = !isString;
 				}
 				else if ( isString && currentChar == '\\' ) {
-- 
2.43.0


From dc8bbb12a9f0b35d45d2079f09d29bb07751a0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:17 +0000
Subject: [PATCH 18/75] fix: count line breaks that follow a backslash in a
 string literal

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 19497b4..1545cad 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -419,6 +419,7 @@ void Tokenizer::process()
 
 	while ( offset <= size ) {
 		char currentChar{ mContent[offset++] };
+		const bool isLineBreak{ currentChar == '\n' };
 
 		// preprocessor directives as single line comments '#'
 		if ( !isMultiLineComment && !isSingleLineComment && !isString && currentChar == '#' ) {
@@ -499,7 +500,7 @@ void Tokenizer::process()
 
 		// counting lines and columns
 		pos.mColumn++;
-		if ( currentChar == '\n' ) {
+		if ( isLineBreak ) {
 			isSingleLineComment = false;
 			pos.mLine++;
 			pos.mColumn = 1;
-- 
2.43.0


From d8c660a4793c56252db9a47c241ea79d0c478c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:17 +0000
Subject: [PATCH 19/75] fix: use the written text as content of the modulo
 assignment token

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 1545cad..444d39d 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -634,7 +634,7 @@ void Tokenizer::mergeAssignments()
 			// remove last added token ...
 			tmp.pop_back();
 			// ... and add ASSIGN_MULTI instead
-			tmp.emplace_back( Token::Category::Assignment, Token::Type::ASSIGN_MODULO, "*=", token->position() );
+			tmp.emplace_back( Token::Category::Assignment, Token::Type::ASSIGN_MODULO, "%=", token->position() );
 		}
 		else if ( (lastType == Token::Type::MATH_MULTIPLY) && (currentType == Token::Type::ASSIGN) ) {
 			// *=
-- 
2.43.0


From a1a2232d4f9d344c956348a87006bdb2e38981ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:55 +0000
Subject: [PATCH 20/75] fix: keep the end of a text that ends with the word
 operator

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 444d39d..8f1fcf2 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -919,7 +919,7 @@ void Tokenizer::replaceOperators()
 			// ... and erase the previous one
 			mTokens.erase(last);
 		}
-		else if ( last != mTokens.end() && last->type() == Token::Type::RESERVED_WORD && last->content() == RESERVED_WORD_OPERATOR ) {
+		else if ( last != mTokens.end() && last->type() == Token::Type::RESERVED_WORD && last->content() == RESERVED_WORD_OPERATOR && token->type() != Token::Type::ENDOFFILE ) {
 			// previous token was an "operator" token
 
 			// erase it ...
-- 
2.43.0


From ad2172634da15fcf397a557393b4d6473b9ae54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:09 +0000
Subject: [PATCH 21/75] fix: let strncat append the first characters of its
 source

---
 Projects/Extensions/LIBC/cstring/strncat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Extensions/LIBC/cstring/strncat.h b/Projects/Extensions/LIBC/cstring/strncat.h
index 5832058..b2b8abb 100644
--- a/Projects/Extensions/LIBC/cstring/strncat.h
+++ b/Projects/Extensions/LIBC/cstring/strncat.h
@@ -46,7 +46,7 @@ public:
 		auto param_source      = (*it++).value().toStdString();
 		auto param_num         = (*it++).value().toInt();
 
-		*result = Runtime::StringType( param_destination + param_source.substr( param_num ) );
+		*result = Runtime::StringType( param_destination + param_source.substr( 0, param_num ) );
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From cb5e53e54309dae13b500b0035ee333c7d2c7485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:09 +0000
Subject: [PATCH 22/75] fix: declare the string results and parameters of
 strchr, strrchr and strstr as such

---
 Projects/Extensions/LIBC/cstring/strchr.h  | 2 +-
 Projects/Extensions/LIBC/cstring/strrchr.h | 2 +-
 Projects/Extensions/LIBC/cstring/strstr.h  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Projects/Extensions/LIBC/cstring/strchr.h b/Projects/Extensions/LIBC/cstring/strchr.h
index 114af6d..c03f666 100644
--- a/Projects/Extensions/LIBC/cstring/strchr.h
+++ b/Projects/Extensions/LIBC/cstring/strchr.h
@@ -27,7 +27,7 @@ class STRCHR : public ExtensionMethod
 {
 public:
 	STRCHR()
-	: ExtensionMethod( 0, "strchr", Designtime::Int32Type::TYPENAME )
+	: ExtensionMethod( 0, "strchr", Designtime::StringType::TYPENAME )
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME ) );
diff --git a/Projects/Extensions/LIBC/cstring/strrchr.h b/Projects/Extensions/LIBC/cstring/strrchr.h
index 8fce434..715d61b 100644
--- a/Projects/Extensions/LIBC/cstring/strrchr.h
+++ b/Projects/Extensions/LIBC/cstring/strrchr.h
@@ -27,7 +27,7 @@ class STRRCHR : public ExtensionMethod
 {
 public:
 	STRRCHR()
-	: ExtensionMethod( 0, "strrchr", Designtime::Int32Type::TYPENAME )
+	: ExtensionMethod( 0, "strrchr", Designtime::StringType::TYPENAME )
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME ) );
diff --git a/Projects/Extensions/LIBC/cstring/strstr.h b/Projects/Extensions/LIBC/cstring/strstr.h
index b4922b5..b111755 100644
--- a/Projects/Extensions/LIBC/cstring/strstr.h
+++ b/Projects/Extensions/LIBC/cstring/strstr.h
@@ -30,7 +30,7 @@ public:
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME, 0 ) );
-		params.push_back( Parameter::CreateDesigntime( "substr", Designtime::Int32Type::TYPENAME, 0 ) );
+		params.push_back( Parameter::CreateDesigntime( "substr", Designtime::StringType::TYPENAME, 0 ) );
 
 		setSignature( params );
 	}
-- 
2.43.0


From 584459c44f6948dbd8a9c844072a5195ee0b492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:34 +0000
Subject: [PATCH 23/75] fix: ignore the removal of an unknown break point

---
 Projects/Core/Debugger/Debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Debugger/Debugger.cpp b/Projects/Core/Debugger/Debugger.cpp
index e9e49da..3b4c7ed 100644
--- a/Projects/Core/Debugger/Debugger.cpp
+++ b/Projects/Core/Debugger/Debugger.cpp
@@ -168,7 +168,7 @@ bool Debugger::removeBreakPoint(const BreakPoint& breakpoint)
 {
 	size_t size = mBreakPoints.size();
 
-	mBreakPoints.erase(mBreakPoints.find(breakpoint));
+	mBreakPoints.erase(breakpoint);
 
 	return size > mBreakPoints.size();
 }
-- 
2.43.0


From 50fb0f00dc319a5215901dacd5e88dfe56c6523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:53:52 +0000
Subject: [PATCH 24/75] fix: do not hand the reference of an argument on to the
 following default values

---
 Projects/Core/Core/Common/Method.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Common/Method.cpp b/Projects/Core/Core/Common/Method.cpp
index 491d7ae..f7ae67d 100644
--- a/Projects/Core/Core/Common/Method.cpp
+++ b/Projects/Core/Core/Common/Method.cpp
@@ -295,11 +295,10 @@ ParameterList Method::mergeParameters(const ParameterList& params) const
 
 	auto paramIt = params.begin();
 
-	Runtime::Reference ref;
-
 	for ( auto sigIt = mSignature.begin(); sigIt != mSignature.end(); ++sigIt ) {
 		// initialize parameter with default value
 		auto value = sigIt->value();
+		Runtime::Reference ref;
 
 		if ( paramIt != params.end() ) {
 			// override parameter with correct value
-- 
2.43.0


From 5d6088df5b77f34371cced40d9794d24144341bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:55 +0000
Subject: [PATCH 25/75] fix: copy the value of a reference variable passed to a
 by-value parameter

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 2de2394..baac7ee 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -700,7 +700,7 @@ void TreeInterpreter::initialize(IScope* scope, const ParameterList& params)
 
 		object->setMutability(param.mutability());
 
-		if ( param.reference().isValid() ) {
+		if ( param.reference().isValid() && !(object->isAtomicType() && param.access() != AccessMode::ByReference) ) {
 			object->setIsReference(true);
 			object->assign(*mMemory->get(param.reference()));
 		}
-- 
2.43.0


From 72097422c2dfeb162d1756fd54c4fb3cef6bab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:05 +0000
Subject: [PATCH 26/75] fix: report a variable in the place of a type as a
 syntax error

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 8003b5a..76d1035 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1392,6 +1392,10 @@ Node* TreeGenerator::process_identifier(TokenIterator& token, bool allowTypeCast
 		) {
 		//OSinfo("C-style typecasts will soon be deprecated");
 
+		if ( !dynamic_cast<DesigntimeSymbolExpression*>(symbol) ) {
+			throw Designtime::Exceptions::SyntaxError("unexpected token '" + op->content() + "' found", op->position());
+		}
+
 		mRepository->prepareType(Common::TypeDeclaration(symbol->getResultType(), dynamic_cast<DesigntimeSymbolExpression*>(symbol)->mConstraints));
 
 		std::string type = symbol->getResultType();
@@ -1695,6 +1699,10 @@ Expression* TreeGenerator::process_new(TokenIterator& token)
 			inner = inner->mSymbolExpression;
 		}
 		else {
+			if ( !dynamic_cast<DesigntimeSymbolExpression*>(inner) ) {
+				throw Designtime::Exceptions::SyntaxError("type expected behind 'new'", token->position());
+			}
+
 			const PrototypeConstraints constraints = dynamic_cast<DesigntimeSymbolExpression*>(inner)->mConstraints;
 
 			const Common::TypeDeclaration typeDeclaration(inner->getResultType(), constraints);
-- 
2.43.0


From 85dbf36871adcbdf7e1c27d3ce366b5fed39e203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:05 +0000
Subject: [PATCH 27/75] fix: require a comma between the arguments of a call

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 76d1035..3fcebc8 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1589,14 +1589,12 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, TokenI
 			expression(tmp)
 		);
 
-		if ( std::distance(tmp, closed) <= 0 ) {
+		if ( tmp == closed ) {
 			break;
 		}
-		tmp = findNext(tmp, Token::Type::COMMA);
-		if ( std::distance(tmp, closed) < 0 ) {
-			break;
-		}
-		tmp++;
+
+		expect(Token::Type::COMMA, tmp);
+		++tmp;
 	}
 
 	token = ++closed;
-- 
2.43.0


From 5b1c1363131324a00c6636216ccb5b3b48d33311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:05 +0000
Subject: [PATCH 28/75] fix: do not look behind the last token of an incomplete
 program

---
 Projects/Core/Core/AST/TreeGenerator.cpp        |  7 +++++++
 Projects/Core/Core/Common/Utils.cpp             | 11 ++++++++++-
 Projects/Core/Core/Designtime/Analyser.cpp      |  9 ++++++---
 Projects/Core/Core/Designtime/Parser/Parser.cpp | 16 +++++++++++++++-
 4 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 3fcebc8..089212f 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -57,6 +57,9 @@ void TreeGenerator::collectScopeTokens(TokenIterator& token, TokenList& tokens)
 
 	++token;
 	expect(Token::Type::BRACKET_CURLY_CLOSE, token);
+
+	// mark the end, so that it can be detected while looking ahead
+	tokens.emplace_back(Token::Category::None, Token::Type::ENDOFFILE, "", token->position());
 }
 
 Node* TreeGenerator::expression(TokenIterator& start)
@@ -1239,6 +1242,7 @@ Statement* TreeGenerator::process_for(TokenIterator& token)
 		initialization = process_statement(token);
 	}
 
+	expect(Token::Type::SEMICOLON, token);
 	++token;
 	// }
 
@@ -1253,6 +1257,7 @@ Statement* TreeGenerator::process_for(TokenIterator& token)
 		}
 	}
 
+	expect(Token::Type::SEMICOLON, token);
 	++token;
 	// }
 
@@ -1263,6 +1268,7 @@ Statement* TreeGenerator::process_for(TokenIterator& token)
 		iteration = process_statement(token, true);
 	}
 
+	expect(Token::Type::PARENTHESIS_CLOSE, token);
 	++token;
 	// }
 
@@ -1816,6 +1822,7 @@ Expression* TreeGenerator::process_subscript(TokenIterator& token, SymbolExpress
 	} while ( token->type() == Token::Type::COMMA );
 
 	// skip ]
+	expect(Token::Type::BRACKET_CLOSE, token);
 	++token;
 
 	return process_method(symbol, opToken, params);
diff --git a/Projects/Core/Core/Common/Utils.cpp b/Projects/Core/Core/Common/Utils.cpp
index 2d1c0e9..fa775c6 100644
--- a/Projects/Core/Core/Common/Utils.cpp
+++ b/Projects/Core/Core/Common/Utils.cpp
@@ -26,7 +26,7 @@ TokenIterator findNext(TokenIterator start, Token::Type::E type, Token::Type::E
 	auto tmp = start;
 
 	while ( tmp->type() != type ) {
-		if ( tmp->type() == terminator ) {
+		if ( tmp->type() == terminator || tmp->type() == Token::Type::ENDOFFILE ) {
 			// we did not find a result before the defined end-token appeared
 			return start;
 		}
@@ -55,6 +55,9 @@ TokenIterator findNextBalancedBracket(TokenIterator start, int generateErrorAfte
 			// we did not find a result before the defined end-token appeared
 			return tmp;
 		}
+		if ( start->type() == Token::Type::ENDOFFILE ) {
+			throw Designtime::Exceptions::SyntaxError("closed bracket expected, but none found", tmp->position());
+		}
 		if ( generateErrorAfter && count >= generateErrorAfter ) {
 			throw Designtime::Exceptions::SyntaxError("Closed bracket expected, but none found after " + Utils::Tools::toString(count) + " iteration(s)", start->position());
 		}
@@ -72,6 +75,9 @@ TokenIterator findNextBalancedCurlyBracket(TokenIterator start, TokenIterator en
 	int openCurlyBrackets = 0;
 
 	while ( ((start != end) && start->type() != Token::Type::BRACKET_CURLY_CLOSE) || openCurlyBrackets ) {
+		if ( start == end || start->type() == Token::Type::ENDOFFILE ) {
+			throw Designtime::Exceptions::SyntaxError("closed curly bracket expected, but none found");
+		}
 		if ( start->type() == Token::Type::BRACKET_CURLY_OPEN ) {
 			++openCurlyBrackets;
 		}
@@ -112,6 +118,9 @@ TokenIterator findNextBalancedParenthesis(TokenIterator start, int generateError
 			// we did not find a result before the defined end-token appeared
 			return tmp;
 		}
+		if ( start->type() == Token::Type::ENDOFFILE ) {
+			throw Designtime::Exceptions::SyntaxError("closed parenthesis expected, but none found", tmp->position());
+		}
 		if ( generateErrorAfter && count >= generateErrorAfter ) {
 			throw Designtime::Exceptions::SyntaxError("closed parenthesis expected, but none found after " + Utils::Tools::toString(count) + " iteration(s)", start->position());
 		}
diff --git a/Projects/Core/Core/Designtime/Analyser.cpp b/Projects/Core/Core/Designtime/Analyser.cpp
index 4b448d0..3cf6f85 100644
--- a/Projects/Core/Core/Designtime/Analyser.cpp
+++ b/Projects/Core/Core/Designtime/Analyser.cpp
@@ -43,7 +43,7 @@ bool Analyser::buildEnum(BluePrintObject* symbol, const TokenList& tokens)
 	Runtime::AtomicValue value{ -1 };
 
 	// Format: <identifier> = <value>[, [or ;]]
-	while ( token != tokens.end() ) {
+	while ( token->type() != Token::Type::ENDOFFILE ) {
 		expect(Token::Type::IDENTIFIER, token);
 
 		auto name = (token++)->content();
@@ -80,13 +80,13 @@ bool Analyser::buildEnum(BluePrintObject* symbol, const TokenList& tokens)
 		symbol->define(name, entry);
 
 		if ( token->type() == Token::Type::COMMA ) {
-			if ( lookahead(token) == tokens.end() ) {
+			if ( lookahead(token)->type() == Token::Type::ENDOFFILE ) {
 				throw Exceptions::SyntaxError("new enum value expected but none found!", token->position());
 			}
 
 			++token;
 		}
-		else if ( token->type() == Token::Type::SEMICOLON || token == tokens.end() ) {
+		else if ( token->type() == Token::Type::SEMICOLON || token->type() == Token::Type::ENDOFFILE ) {
 			// omitting the semicolon as last token is also allowed
 			return true;
 		}
@@ -390,6 +390,9 @@ bool Analyser::createMemberOrMethod(TokenIterator& token)
 	// look for the type token and resolve full typename
 	Common::TypeDeclaration type = parseTypeDeclaration(token, mScope);
 	// look for the identifier token
+	if ( token->type() == Token::Type::ENDOFFILE ) {
+		throw Exceptions::SyntaxError("unexpected end of file", token->position());
+	}
 	std::string name = (*token++).content();
 
 	if ( token->type() == Token::Type::PARENTHESIS_OPEN ) {
diff --git a/Projects/Core/Core/Designtime/Parser/Parser.cpp b/Projects/Core/Core/Designtime/Parser/Parser.cpp
index 144c088..010e6c7 100644
--- a/Projects/Core/Core/Designtime/Parser/Parser.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Parser.cpp
@@ -196,6 +196,10 @@ PrototypeConstraints Parser::collectDesigntimePrototypeConstraints(TokenIterator
 	unsigned int index = 0;
 
 	while ( token->type() != Token::Type::COMPARE_GREATER ) {
+		if ( token->type() == Token::Type::ENDOFFILE ) {
+			throw Exceptions::SyntaxError("unexpected end of file", token->position());
+		}
+
 		auto designType = token->content();
 		auto runType    = token->content();	// hack to prevent runtime type to be empty
 
@@ -249,6 +253,10 @@ PrototypeConstraints Parser::collectRuntimePrototypeConstraints(TokenIterator& t
 	unsigned int index = 0;
 
 	while ( token->type() != Token::Type::COMPARE_GREATER ) {
+		if ( token->type() == Token::Type::ENDOFFILE ) {
+			throw Exceptions::SyntaxError("unexpected end of file", token->position());
+		}
+
 		auto runType = token->content();
 
 		++token;
@@ -286,6 +294,9 @@ TokenList Parser::collectScopeTokens(TokenIterator& token)
 
 	// look for the corresponding closing curly bracket
 	while ( (++token)->type() != Token::Type::BRACKET_CURLY_CLOSE || scope > 0 ) {
+		if ( token->type() == Token::Type::ENDOFFILE ) {
+			throw Exceptions::SyntaxError("unexpected end of file", token->position());
+		}
 		if ( token->type() == Token::Type::BRACKET_CURLY_OPEN ) {
 			++scope;
 		}
@@ -298,6 +309,9 @@ TokenList Parser::collectScopeTokens(TokenIterator& token)
 
 	expect(Token::Type::BRACKET_CURLY_CLOSE, token);
 
+	// mark the end, so that it can be detected while looking ahead
+	tokens.emplace_back(Token::Category::None, Token::Type::ENDOFFILE, "", token->position());
+
 	return tokens;
 }
 
@@ -305,7 +319,7 @@ std::string Parser::identify(TokenIterator& token)
 {
 	std::string type = token->content();
 
-	while ( (token++)->type() == Token::Type::IDENTIFIER ) {
+	while ( token->type() != Token::Type::ENDOFFILE && (token++)->type() == Token::Type::IDENTIFIER ) {
 		if ( token->type() != Token::Type::OPERATOR_SCOPE ) {
 			break;
 		}
-- 
2.43.0


From f61604e6313b9ff9e72273561135ef95d7d3be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:27 +0000
Subject: [PATCH 29/75] fix: give the result of a binary operator the type of
 the expression

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index baac7ee..84ae935 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -162,6 +162,11 @@ void TreeInterpreter::evaluateBinaryExpression(BinaryExpression* exp, Runtime::O
 		// }
 	}
 
+	// the result has the type of the expression
+	if ( left.isAtomicType() && left.QualifiedTypename() != exp->getResultType() ) {
+		Runtime::typecast(&left, exp->getResultType());
+	}
+
 	// assign (left ? right) to our result
 	Runtime::operator_binary_assign(result, &left);
 }
-- 
2.43.0


From 2fed8e401610db0f5ed61fe5ea42d8d35167d680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:43 +0000
Subject: [PATCH 30/75] fix: execute the bit operators of int16 and int64

---
 .../Core/Core/Runtime/OperatorOverloading.cpp | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index d1fbc26..2df6db1 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -124,12 +124,24 @@ void operator_binary_bitand( Object* lvalue, Object* rvalue )
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int16Type::TYPENAME ) {
+		Int16Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitand( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == Int32Type::TYPENAME ) {
 		Int32Type tmp( lvalue->getValue().toInt() );
 		tmp.operator_bitand( rvalue );
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int64Type::TYPENAME ) {
+		Int64Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitand( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
 		tmp.operator_bitand( rvalue );
@@ -224,12 +236,24 @@ void operator_binary_bitor( Object* lvalue, Object* rvalue )
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int16Type::TYPENAME ) {
+		Int16Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitor( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == Int32Type::TYPENAME ) {
 		Int32Type tmp( lvalue->getValue().toInt() );
 		tmp.operator_bitor( rvalue );
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int64Type::TYPENAME ) {
+		Int64Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitor( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
 		tmp.operator_bitor( rvalue );
-- 
2.43.0


From bd37ba5b21de47b5ee7f1997f391b6e2d450ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:50 +0000
Subject: [PATCH 31/75] fix: execute the unary plus of numbers

---
 .../Core/Core/Runtime/OperatorOverloading.cpp | 25 ++++---------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index 2df6db1..e2d5568 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -1144,34 +1144,19 @@ void operator_unary_plus( Object* lvalue )
 		lvalue->assign( tmp );
 	}
 	else if ( target == DoubleType::TYPENAME ) {
-		DoubleType tmp( lvalue->getValue().toDouble() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
+		lvalue->assign( DoubleType( lvalue->getValue().toDouble() ) );
 	}
 	else if ( target == FloatType::TYPENAME ) {
-		FloatType tmp( lvalue->getValue().toFloat() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
+		lvalue->assign( FloatType( lvalue->getValue().toFloat() ) );
 	}
 	else if ( target == Int16Type::TYPENAME ) {
-		Int16Type tmp( lvalue->getValue().toInt() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
+		lvalue->assign( Int16Type( lvalue->getValue().toInt() ) );
 	}
 	else if ( target == Int32Type::TYPENAME ) {
-		Int32Type tmp( lvalue->getValue().toInt() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
+		lvalue->assign( Int32Type( lvalue->getValue().toInt() ) );
 	}
 	else if ( target == Int64Type::TYPENAME ) {
-		Int64Type tmp( lvalue->getValue().toInt() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
+		lvalue->assign( Int64Type( lvalue->getValue().toInt() ) );
 	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
-- 
2.43.0


From af1e5652044a763c936fe49fec6fb25d4fa215c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:26 +0000
Subject: [PATCH 32/75] fix: reject increment and decrement of bool and string
 values

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 089212f..71d1b4c 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1492,6 +1492,10 @@ Expression* TreeGenerator::process_incdecrement(TokenIterator& token, Expression
 	}
 
 	if ( lhs->isAtomicType() ) {
+		if ( lhs->getResultType() == _bool || lhs->getResultType() == _string ) {
+			throw Common::Exceptions::TypeMismatch("operator '" + token->content() + "' is not available for type '" + lhs->getResultType() + "'", token->position());
+		}
+
 		return new UnaryExpression((*token++), lhs, UnaryExpression::ValueType::LValue);
 	}
 
-- 
2.43.0


From 3c35cc1089582b264cbb6e2ba5885163cdc654c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:47 +0000
Subject: [PATCH 33/75] fix: compare enumerations with numbers, reject their
 arithmetic and increments

Comparing an enumeration with an integer was accepted by the type check but
failed at run time. Arithmetic, increment and decrement of enumerations were
accepted as well although they cannot be executed.
---
 Projects/Core/Core/AST/TreeGenerator.cpp           |  4 +++-
 Projects/Core/Core/Runtime/OperatorOverloading.cpp | 10 +++++-----
 Projects/Core/Core/VirtualMachine/Repository.cpp   |  7 -------
 3 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 71d1b4c..9a176bc 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1492,7 +1492,9 @@ Expression* TreeGenerator::process_incdecrement(TokenIterator& token, Expression
 	}
 
 	if ( lhs->isAtomicType() ) {
-		if ( lhs->getResultType() == _bool || lhs->getResultType() == _string ) {
+		const auto* blueprint = mRepository->findBluePrintObject(lhs->getResultType());
+
+		if ( lhs->getResultType() == _bool || lhs->getResultType() == _string || ( blueprint && blueprint->isEnumeration() ) ) {
 			throw Common::Exceptions::TypeMismatch("operator '" + token->content() + "' is not available for type '" + lhs->getResultType() + "'", token->position());
 		}
 
diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index e2d5568..e7f9bdf 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -370,7 +370,7 @@ bool operator_binary_equal( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_equal( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( lvalue->isEnumerationValue() && ( rvalue->QualifiedTypename() == Int32Type::TYPENAME || ( rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) ) ) {
 		return lvalue->getValue().toInt() == rvalue->getValue().toInt();
 	}
 
@@ -427,7 +427,7 @@ bool operator_binary_greater( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_greater( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( lvalue->isEnumerationValue() && ( rvalue->QualifiedTypename() == Int32Type::TYPENAME || ( rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) ) ) {
 		return lvalue->getValue().toInt() > rvalue->getValue().toInt();
 	}
 
@@ -479,7 +479,7 @@ bool operator_binary_greater_equal( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_greater_equal( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( lvalue->isEnumerationValue() && ( rvalue->QualifiedTypename() == Int32Type::TYPENAME || ( rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) ) ) {
 		return lvalue->getValue().toInt() >= rvalue->getValue().toInt();
 	}
 
@@ -531,7 +531,7 @@ bool operator_binary_less( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_less( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( lvalue->isEnumerationValue() && ( rvalue->QualifiedTypename() == Int32Type::TYPENAME || ( rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) ) ) {
 		return lvalue->getValue().toInt() < rvalue->getValue().toInt();
 	}
 
@@ -583,7 +583,7 @@ bool operator_binary_less_equal( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_less_equal( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( lvalue->isEnumerationValue() && ( rvalue->QualifiedTypename() == Int32Type::TYPENAME || ( rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) ) ) {
 		return lvalue->getValue().toInt() <= rvalue->getValue().toInt();
 	}
 
diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 980e1c7..2325fee 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -647,13 +647,6 @@ void Repository::initTypeSystem(Designtime::BluePrintObject* blueprint)
 		define(Designtime::Int32Type::TYPENAME, Token::Type::COMPARE_GREATER_EQUAL, blueprint->QualifiedTypename(), _bool);
 		define(Designtime::Int32Type::TYPENAME, Token::Type::COMPARE_UNEQUAL,       blueprint->QualifiedTypename(), _bool);
 
-		// arithmetic operators
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_ADDITION, blueprint->QualifiedTypename(), blueprint->QualifiedTypename());
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_DIVIDE,   blueprint->QualifiedTypename(), blueprint->QualifiedTypename());
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_MODULO,   blueprint->QualifiedTypename(), _float);
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_MULTIPLY, blueprint->QualifiedTypename(), blueprint->QualifiedTypename());
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_SUBTRACT, blueprint->QualifiedTypename(), blueprint->QualifiedTypename());
-
 		// typecast operator
 		define(_int32, Token::Type::TYPECAST, blueprint->QualifiedTypename(), _int32);
 		define(_string, Token::Type::TYPECAST, blueprint->QualifiedTypename(), _string);
-- 
2.43.0


From 4835b6b2dff28575bb4195e2e6e9fe6ebc039b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:47 +0000
Subject: [PATCH 34/75] fix: reject enumeration members behind the closing
 semicolon

Everything between the semicolon and the closing brace was silently dropped.
---
 Projects/Core/Core/Designtime/Analyser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Analyser.cpp b/Projects/Core/Core/Designtime/Analyser.cpp
index 3cf6f85..408db04 100644
--- a/Projects/Core/Core/Designtime/Analyser.cpp
+++ b/Projects/Core/Core/Designtime/Analyser.cpp
@@ -87,6 +87,10 @@ bool Analyser::buildEnum(BluePrintObject* symbol, const TokenList& tokens)
 			++token;
 		}
 		else if ( token->type() == Token::Type::SEMICOLON || token->type() == Token::Type::ENDOFFILE ) {
+			if ( token->type() == Token::Type::SEMICOLON && lookahead(token)->type() != Token::Type::ENDOFFILE ) {
+				throw Exceptions::SyntaxError("unexpected token '" + lookahead(token)->content() + "' found", token->position());
+			}
+
 			// omitting the semicolon as last token is also allowed
 			return true;
 		}
-- 
2.43.0


From ab307621cc4fe7a1095cee64368e9a9efd0c66f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:47 +0000
Subject: [PATCH 35/75] fix: reject numbers that are followed by a name

'1.foo' and '1 x' were merged into one integer literal.
---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 8f1fcf2..bc2e09f 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -872,7 +872,7 @@ void Tokenizer::replaceConstDataTypesPatternMatching()
 						patternIt->resetContentTo( "" );
 						opToken->resetTypeTo( Token::Type::CONST_FLOAT );
 					}
-					else if ( patternIt->content() == "i" ) {
+					else {
 						throw Designtime::Exceptions::SyntaxError( "invalid number format", patternIt->position() );
 					}
 				}
-- 
2.43.0


From bac875260b938e916325457d119d13ed34d0ece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:54 +0000
Subject: [PATCH 36/75] fix: let parameters and local variables hide members of
 the same name

Inside methods of objects every name was looked up in the object first, so
that assigning a local variable changed the member with the same name. A local
variable with the name of a parameter is now rejected during compilation, it
used to fail when the method was executed.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 42 ++++++++++++++++++++++--
 Projects/Core/Core/AST/TreeGenerator.h   |  3 ++
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 9a176bc..8713c7b 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -170,6 +170,18 @@ Statements* TreeGenerator::generateAST(const Common::Method* method)
 	return statements;
 }
 
+/*
+ * defines a local variable; the method's outermost block shares its scope with the method's parameters
+ */
+void TreeGenerator::defineLocal(const std::string& name, Runtime::Object* object)
+{
+	if ( getScope()->getEnclosingScope() == mMethod && mMethod->resolve(name, true, Visibility::Designtime) ) {
+		throw Common::Exceptions::DuplicateIdentifier("duplicate symbol '" + name + "' defined");
+	}
+
+	getScope()->define(name, object);
+}
+
 MethodScope* TreeGenerator::getEnclosingMethodScope(const IScope* scope)
 {
 	while ( scope ) {
@@ -184,6 +196,30 @@ MethodScope* TreeGenerator::getEnclosingMethodScope(const IScope* scope)
 	return nullptr;
 }
 
+/*
+ * parameters and local variables hide members with the same name, but not methods that are called
+ */
+bool TreeGenerator::isLocalSymbol(const TokenIterator& token, IScope* scope) const
+{
+	const auto next = lookahead(token);
+	if ( next != getTokens().end() && next->type() == Token::Type::PARENTHESIS_OPEN ) {
+		return false;
+	}
+
+	while ( scope ) {
+		if ( scope->resolve(token->content(), true, Visibility::Designtime) ) {
+			return true;
+		}
+		if ( scope == mMethod ) {
+			break;
+		}
+
+		scope = scope->getEnclosingScope();
+	}
+
+	return false;
+}
+
 MethodScope* TreeGenerator::getMethodScope(IScope* scope)
 {
 	auto* result = dynamic_cast<MethodScope*>(scope);
@@ -2142,7 +2178,7 @@ TypeDeclaration* TreeGenerator::process_type(TokenIterator& token, Initializatio
 	Runtime::Object* object = mRepository->createInstance(type, name, constraints, Repository::InitilizationType::AllowAbstract);
 	object->setMutability(mutability);
 
-	getScope()->define(name, object);
+	defineLocal(name, object);
 
 	// non-atomic types are references by default
 	const AccessMode::E accessMode = Designtime::Parser::parseAccessMode(token, object->isAtomicType() ? AccessMode::ByValue : AccessMode::ByReference);
@@ -2223,7 +2259,7 @@ TypeDeclaration* TreeGenerator::process_var(TokenIterator& token)
 	object->setMutability(mutability);
 	object->setIsReference(accessMode == AccessMode::ByReference);
 
-	getScope()->define(name, object);
+	defineLocal(name, object);
 
 	// this could easily be changed to return a TypeDeclaration statement, which would be a little faster but during debugging the wrong statement would be shown
 	return new TypeInference(start, rhs->getResultType(), PrototypeConstraints(), name, mutability == Mutability::Const, accessMode == AccessMode::ByReference, rhs);
@@ -2483,7 +2519,7 @@ SymbolExpression* TreeGenerator::resolveWithExceptions(TokenIterator& token, ISc
 
 SymbolExpression* TreeGenerator::resolveWithThis(TokenIterator& token, IScope* base) const
 {
-    if ( mThis ) {
+    if ( mThis && !isLocalSymbol(token, base) ) {
         // every class-method has a "this" local that points to the object's blueprint
         // resolve symbol by using the "this" identifier (without exceptions so that we can try to resolve another time)
         SymbolExpression* exp = resolve(token, mThis, true, Visibility::Private);
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index f5c0fa4..4b980a2 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -144,6 +144,9 @@ private: // Execution
 
 	// Scope stack
 	// {
+	void defineLocal(const std::string& name, Runtime::Object* object);
+	bool isLocalSymbol(const TokenIterator& token, IScope* scope) const;
+
 	static MethodScope* getEnclosingMethodScope(const IScope* scope) ;
 	static MethodScope* getMethodScope(IScope* scope) ;
 
-- 
2.43.0


From 26e92f3f3d613a7ab9baf721893231161c0a9b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:54 +0000
Subject: [PATCH 37/75] fix: look up static members of static methods without
 an instance

Static methods used 'this', which they do not have, so that using a static
member failed at run time. Non-static members are now rejected in them.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 8713c7b..66dcc24 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2519,7 +2519,14 @@ SymbolExpression* TreeGenerator::resolveWithExceptions(TokenIterator& token, ISc
 
 SymbolExpression* TreeGenerator::resolveWithThis(TokenIterator& token, IScope* base) const
 {
-    if ( mThis && !isLocalSymbol(token, base) ) {
+    if ( mThis && mMethod->isStatic() ) {
+        // static methods have no "this", so only static members can be resolved (by looking them up in our enclosing scopes)
+        const auto* member = dynamic_cast<Designtime::BluePrintObject*>(mThis->resolve(token->content(), true, Visibility::Private));
+        if ( member && member->isMember() && !isLocalSymbol(token, base) ) {
+            throw Common::Exceptions::StaticException("non-static member \"" + token->content() + "\" used in static method \"" + mMethod->getFullScopeName() + "\"", token->position());
+        }
+    }
+    else if ( mThis && !isLocalSymbol(token, base) ) {
         // every class-method has a "this" local that points to the object's blueprint
         // resolve symbol by using the "this" identifier (without exceptions so that we can try to resolve another time)
         SymbolExpression* exp = resolve(token, mThis, true, Visibility::Private);
-- 
2.43.0


From 5f77d0f67a213f27687f5eefc6a7db24e5ff21d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:55 +0000
Subject: [PATCH 38/75] fix: find static members and methods through instances

Accessing them through an object or from a non-static method was accepted but
failed at run time.
---
 Projects/Core/Core/Object.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 0bf8c0a..2276810 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -511,6 +511,11 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 		}
 	}
 
+	// static members are shared by all instances, so they belong to our blueprint
+	if ( !result && mBluePrint ) {
+		result = dynamic_cast<Object*>(mBluePrint->resolve(name, true, visibility));
+	}
+
 	// (3) if we still haven't found something also look in other scopes
 	if ( !result && !onlyCurrentScope ) {
 		result = MethodScope::resolve(name, false, visibility);
@@ -538,6 +543,14 @@ Slang::MethodSymbol* Object::resolveMethod(const std::string& name, const Parame
 		}
 	}
 
+	// static methods are not part of an instance, so they belong to our blueprint
+	if ( !result && mBluePrint ) {
+		Slang::MethodSymbol *tmp = mBluePrint->resolveMethod(name, params, true, visibility);
+		if ( tmp && tmp->isStatic() ) {
+			result = tmp;
+		}
+	}
+
 	// (3) if we still haven't found something also look in other scopes
 	if ( !result || !result->isFinalMethod() ) {
 		if ( !onlyCurrentScope ) {
-- 
2.43.0


From d3f34921c9498e8d479a6fcc0a0c9cbe14288e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:59 +0000
Subject: [PATCH 39/75] fix: reject integer literals that do not fit into 64
 bits

They were silently limited to the largest value.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 66dcc24..a19c76f 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -565,6 +565,12 @@ Node* TreeGenerator::parseTerm(TokenIterator& start)
 		case Token::Type::CONST_INTEGER: {
 		    auto value = Utils::Tools::stringToInt(start->content());
 
+			// larger numbers are limited to the maximum value
+			const auto digits = start->content().find_first_not_of('0');
+			if ( value == INT64_MAX && start->content().substr(digits) != Utils::Tools::toString(value) ) {
+				throw Designtime::Exceptions::SyntaxError("integer literal '" + start->content() + "' is too large", start->position());
+			}
+
 			//if( value >= SHRT_MIN && value <= SHRT_MAX )
 			//    term = new Int16LiteralExpression(value);
 			//else
-- 
2.43.0


From d46c2b402f9562813a7e3edb24b90b48a4044fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 40/75] fix: run inherited constructors and destructors on the
 base object

---
 Projects/Core/Core/Object.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 2276810..78c602c 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -189,7 +189,10 @@ ControlFlow::E Object::Constructor(const ParameterList& params)
 	if ( constructor ) {
 		VoidType tmp;
 
-		controlflow = Controller::Instance().thread(0)->execute(mThis, constructor, params, &tmp);
+		// inherited constructors initialize the base object they belong to
+		auto* self = dynamic_cast<Object*>(constructor->getEnclosingScope());
+
+		controlflow = Controller::Instance().thread(0)->execute(self ? self : mThis, constructor, params, &tmp);
 
 		if ( controlflow != ControlFlow::Normal ) {
 			return controlflow;
@@ -234,7 +237,10 @@ ControlFlow::E Object::Destructor()
 		if ( destructor ) {
 			VoidType tmp;
 
-			controlflow = Controller::Instance().thread(0)->execute(mThis, destructor, params, &tmp);
+			// inherited destructors belong to our base object
+			auto* self = dynamic_cast<Object*>(destructor->getEnclosingScope());
+
+			controlflow = Controller::Instance().thread(0)->execute(self ? self : mThis, destructor, params, &tmp);
 
 			if ( controlflow != ControlFlow::Normal ) {
 				return controlflow;
-- 
2.43.0


From db75afcb4941f758afbaa69b86ead4a64a88f6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 41/75] fix: reject modifications of const members outside of
 constructors

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index a19c76f..d6698eb 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2382,7 +2382,7 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 
 			scope = blueprint;
 
-			symbol = new DesigntimeSymbolExpression(name, type, constraints, blueprint->isAtomicType());
+			symbol = new DesigntimeSymbolExpression(name, type, constraints, bpo->isMember() && bpo->isConst() && blueprint->isAtomicType(), false, blueprint->isAtomicType());
 			//symbol = new DesigntimeSymbolExpression(name, type, constraints, bpo->isConst(), bpo->isMember(), blueprint->isAtomicType());
 		} break;
 		case Symbol::IType::NamespaceSymbol: {
-- 
2.43.0


From c0859c653505c457d01de49ddb8014b482505447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 42/75] fix: do not assign const objects to non-const variables

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index d6698eb..6b23541 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2202,6 +2202,10 @@ TypeDeclaration* TreeGenerator::process_type(TokenIterator& token, Initializatio
 		assignmentExp = dynamic_cast<Expression*>( expression( ++token ) );
 
 		resolveType( token, object->QualifiedTypename(), operation, assignmentExp->getResultType() );
+
+		if ( mutability == Mutability::Modify && assignmentExp->isInnerConst() && !object->isAtomicType() ) {
+			throw Common::Exceptions::ConstCorrectnessViolated("tried to assign const type '" + assignmentExp->getResultType() + "' to non-const symbol '" + name + "'", token->position());
+		}
 	}
 	else if ( initialization == Initialization::Required ) {
 		// initialization is required (probably because type inference is used) but no initialization sequence found
-- 
2.43.0


From a5e1460e338defb8a0e1cf493d7382aa250b4df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 43/75] fix: do not follow base symbols when releasing global
 objects

---
 Projects/Core/Core/VirtualMachine/VirtualMachine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 28fdc6c..1276423 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -77,6 +77,10 @@ static void releaseObjects(MethodScope* scope)
 				object->assign(Runtime::Object());
 			}
 		}
+		else if ( it->first == IDENTIFIER_BASE ) {
+			// base classes are released by the scope they are defined in
+			continue;
+		}
 		else if ( auto* child = dynamic_cast<MethodScope*>( it->second ) ) {
 			releaseObjects(child);
 		}
-- 
2.43.0


From 3624c7eb443b41ba6a83c75ef69aa69032bd143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 44/75] fix: hide private members of base classes from derived
 classes

---
 Projects/Core/Core/Scope.cpp                 | 12 ++++++++----
 Projects/Library/libBehaviourTree/Control.os |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/Projects/Core/Core/Scope.cpp b/Projects/Core/Core/Scope.cpp
index 19244b4..7944b7a 100644
--- a/Projects/Core/Core/Scope.cpp
+++ b/Projects/Core/Core/Scope.cpp
@@ -335,12 +335,14 @@ Symbol* MethodScope::resolve(const std::string& name, bool onlyCurrentScope, Vis
 	if ( visibility != Visibility::Designtime ) {
 		Symbol* base = resolve(IDENTIFIER_BASE, true, Visibility::Designtime);
 		if ( base ) {
+			// private symbols of our base are not accessible
+			const Visibility::E baseVisibility = visibility < Visibility::Protected ? Visibility::Protected : visibility;
 			Symbol* result = nullptr;
 
 			switch ( base->getSymbolType() ) {
-				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolve(name, true, visibility); break;
+				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolve(name, true, baseVisibility); break;
 				case Symbol::IType::NamespaceSymbol: result = dynamic_cast<Common::Namespace*>(base)->resolve(name, true, visibility); break;
-				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolve(name, true, visibility); break;
+				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolve(name, true, baseVisibility); break;
 				default: throw Common::Exceptions::Exception("invalid scope type");
 			}
 
@@ -378,12 +380,14 @@ MethodSymbol* MethodScope::resolveMethod(const std::string& name, const Paramete
 	if ( visibility != Visibility::Designtime ) {
 		Symbol* base = resolve(IDENTIFIER_BASE, true, Visibility::Designtime);
 		if ( base ) {
+			// private symbols of our base are not accessible
+			const Visibility::E baseVisibility = visibility < Visibility::Protected ? Visibility::Protected : visibility;
 			MethodSymbol* result = nullptr;
 
 			switch ( base->getSymbolType() ) {
-				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolveMethod(name, params, true, visibility); break;
+				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolveMethod(name, params, true, baseVisibility); break;
 				case Symbol::IType::NamespaceSymbol: result = dynamic_cast<Common::Namespace*>(base)->resolveMethod(name, params, true, visibility); break;
-				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolveMethod(name, params, true, visibility); break;
+				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolveMethod(name, params, true, baseVisibility); break;
 				default: throw Common::Exceptions::Exception("invalid scope type");
 			}
 
diff --git a/Projects/Library/libBehaviourTree/Control.os b/Projects/Library/libBehaviourTree/Control.os
index 9cfdce6..059bfbf 100644
--- a/Projects/Library/libBehaviourTree/Control.os
+++ b/Projects/Library/libBehaviourTree/Control.os
@@ -128,7 +128,7 @@ public object Sequence extends Control {
         return NodeStatus.Success;
     }
 
-    private int Index = 0;
+    protected int Index = 0;
 }
 
 public object ReactiveSequence extends Sequence {
-- 
2.43.0


From fffbc995462bc11e895191e02140f7fd59c191f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 45/75] fix: allow access to private static members through the
 own class name

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 6b23541..e3f227b 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2427,6 +2427,9 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 		else if ( name == IDENTIFIER_THIS ) {
 			visibility = Visibility::Private;		// this allows us full access to our owners class' members/methods
 		}
+		else if ( mThis && mThis == dynamic_cast<Designtime::BluePrintObject*>(result) ) {
+			visibility = Visibility::Private;		// this allows us full access to our own static members/methods
+		}
 		else if ( mThis && dynamic_cast<Runtime::Object*>(result)
 			   && mThis == dynamic_cast<Runtime::Object*>(result)->getBluePrint() ) {
 			visibility = Visibility::Private;		// this allows us full access to our owners class' members/methods
-- 
2.43.0


From e5c6b0a98cf96c30525e7372a646355750856e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 46/75] fix: apply const rules to members accessed with an
 explicit this

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index e3f227b..347b131 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2386,7 +2386,13 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 
 			scope = blueprint;
 
-			symbol = new DesigntimeSymbolExpression(name, type, constraints, bpo->isMember() && bpo->isConst() && blueprint->isAtomicType(), false, blueprint->isAtomicType());
+			if ( name == IDENTIFIER_THIS && token->type() == Token::Type::OPERATOR_SCOPE ) {
+				// members that are accessed with an explicit "this" have to obey the same rules as the ones without it
+				symbol = new DesigntimeSymbolExpression(name, type, constraints, mMethod->isConstMethod(), true, false);
+			}
+			else {
+				symbol = new DesigntimeSymbolExpression(name, type, constraints, bpo->isMember() && bpo->isConst() && blueprint->isAtomicType(), false, blueprint->isAtomicType());
+			}
 			//symbol = new DesigntimeSymbolExpression(name, type, constraints, bpo->isConst(), bpo->isMember(), blueprint->isAtomicType());
 		} break;
 		case Symbol::IType::NamespaceSymbol: {
-- 
2.43.0


From 2f85f4f6dff3b5bf80d3e452e9bfcf33453007ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 47/75] fix: detect circular inheritance with more than two
 classes

---
 Projects/Core/Core/Designtime/BluePrintObject.cpp | 7 ++++++-
 Projects/Core/Core/Designtime/BluePrintObject.h   | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index 09dde6e..f0b4e92 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -56,6 +56,7 @@ BluePrintObject::BluePrintObject()
   mIsAtomicType(false),
   mFilename(ANONYMOUS_OBJECT),
   mIsPrepared(false),
+  mIsPreparing(false),
   mIsReference(false),
   mQualifiedTypename(ANONYMOUS_OBJECT),
   mUnqualifiedTypename(ANONYMOUS_OBJECT)
@@ -70,6 +71,7 @@ BluePrintObject::BluePrintObject(const std::string& unqualifiedTypename, std::st
   mIsAtomicType(false),
   mFilename(std::move(filename)),
   mIsPrepared(false),
+  mIsPreparing(false),
   mIsReference(false),
   mQualifiedTypename(unqualifiedTypename),
   mUnqualifiedTypename(unqualifiedTypename)
@@ -341,6 +343,8 @@ void BluePrintObject::prepareParents(Repository* repository)
 	// }
 */
 
+	mIsPreparing = true;
+
 	for ( const auto& it : mInheritance ) {
 		BluePrintObject* parent = repository->findBluePrintObject(it.typeDeclaration());
 
@@ -349,7 +353,7 @@ void BluePrintObject::prepareParents(Repository* repository)
 		}
 
 		// detect circular inheritance
-		if ( parent->inheritsFrom(QualifiedTypename()) ) {
+		if ( parent->inheritsFrom(QualifiedTypename()) || parent->mIsPreparing ) {
 			throw Exceptions::DesigntimeException("Circular inheritance detected for type '" + QualifiedTypename() + "'!");
 		}
 
@@ -376,6 +380,7 @@ void BluePrintObject::prepareParents(Repository* repository)
 	}
 
 	mIsPrepared = true;
+	mIsPreparing = false;
 }
 
 MethodScope::MethodCollection BluePrintObject::provideMethods() const
diff --git a/Projects/Core/Core/Designtime/BluePrintObject.h b/Projects/Core/Core/Designtime/BluePrintObject.h
index cb73caa..2945e76 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.h
+++ b/Projects/Core/Core/Designtime/BluePrintObject.h
@@ -112,6 +112,7 @@ private:
 	std::string mFilename;
 	Ancestors mInheritance;
 	bool mIsPrepared;
+	bool mIsPreparing;
 	bool mIsReference;
 	PrototypeConstraints mPrototypeConstraints;
 	std::string mQualifiedTypename;
-- 
2.43.0


From ca4dde13d135b6e4592ce50793ffd667a8797ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 48/75] fix: keep the names of objects that are declared in
 nested scopes

---
 Projects/Core/Core/Designtime/Analyser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Analyser.cpp b/Projects/Core/Core/Designtime/Analyser.cpp
index 408db04..7a52e39 100644
--- a/Projects/Core/Core/Designtime/Analyser.cpp
+++ b/Projects/Core/Core/Designtime/Analyser.cpp
@@ -137,7 +137,9 @@ bool Analyser::createBluePrint(TokenIterator& token)
 		throw Exceptions::SyntaxError("object expected", token->position());
 	}
 	// look for the type declaration
-	Common::TypeDeclaration type = parseTypeDeclaration(token, mScope);
+	const Common::TypeDeclaration declaration = Parser::parseTypeDeclaration(token, mScope);
+	Common::TypeDeclaration type = resolveType(declaration, token);
+	type.mName = declaration.mName;		// this is a new type even if its name is already known in another scope
 	// collect inheritance (if present)
 	Ancestors inheritance = collectInheritance(token);
 
-- 
2.43.0


From 76d3c671ddf81678d126433ba59b3a1fe2669e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 49/75] fix: reject calls of inherited non-static methods from
 static methods

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 347b131..a9481ad 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1719,7 +1719,8 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const
 	}
 
 	// prevent calls to non-static methods from static methods
-	if ( mMethod->getEnclosingScope() == method->getEnclosingScope() && mMethod->isStatic() && !method->isStatic() && method->getMethodType() == MethodType::Method ) {
+	if ( (mMethod->getEnclosingScope() == method->getEnclosingScope() || (mThis && !symbol->mSymbolExpression && dynamic_cast<Designtime::BluePrintObject*>(method->getEnclosingScope())))
+	  && mMethod->isStatic() && !method->isStatic() && method->getMethodType() == MethodType::Method ) {
 		throw Common::Exceptions::StaticException("non-static method \"" + method->ToString() + "\" called from static method \"" + mMethod->getFullScopeName() + "\"", token.position());
 	}
 
-- 
2.43.0


From a653eccee483367450899ba817b7e0c951e7ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 50/75] fix: call subscript and increment operators on members

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index a9481ad..24eaefe 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1555,8 +1555,13 @@ Expression* TreeGenerator::process_incdecrement(TokenIterator& token, Expression
 		throw Designtime::Exceptions::SyntaxError("'" + symbol->getResultType() + "' is not a valid type", token->position());
 	}
 
-	symbol->mSymbolExpression = new DesigntimeSymbolExpression("operator" + token->content(), _void, PrototypeConstraints(), false);
-	symbol->mSymbolExpression->mSurroundingScope = type;
+	SymbolExpression* inner = symbol;
+	while ( inner->mSymbolExpression ) {
+		inner = inner->mSymbolExpression;
+	}
+
+	inner->mSymbolExpression = new DesigntimeSymbolExpression("operator" + token->content(), _void, PrototypeConstraints(), false);
+	inner->mSymbolExpression->mSurroundingScope = type;
 
 	++token;
 
@@ -1855,8 +1860,13 @@ Expression* TreeGenerator::process_subscript(TokenIterator& token, SymbolExpress
 		throw Common::Exceptions::UnknownIdentifier("unknown identifier '" + type + "'", token->position());
 	}
 
-	symbol->mSymbolExpression = new RuntimeSymbolExpression("operator[]", "", true, true, obj->isAtomicType());
-	symbol->mSymbolExpression->mSurroundingScope = obj;
+	SymbolExpression* inner = symbol;
+	while ( inner->mSymbolExpression ) {
+		inner = inner->mSymbolExpression;
+	}
+
+	inner->mSymbolExpression = new RuntimeSymbolExpression("operator[]", "", true, true, obj->isAtomicType());
+	inner->mSymbolExpression->mSurroundingScope = obj;
 
 	const Token opToken(Token::Category::Operator, Token::Type::BRACKET_OPEN, "[", token->position(), false);
 	ExpressionList params;
-- 
2.43.0


From 54ecca3b7fe37b5cf1ee962bbc4f8c4e7ea1e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 51/75] fix: release the reference in delete statements

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 84ae935..4ec36f3 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1002,6 +1002,17 @@ void TreeInterpreter::visitContinue(ContinueStatement* /*node*/)
 
 void TreeInterpreter::visitDelete(DeleteStatement* node)
 {
+	if ( auto* symbol = dynamic_cast<SymbolExpression*>(node->mExpression) ) {
+		Runtime::Object& lvalue = resolveLValue(getScope(), symbol, false, Visibility::Designtime);
+
+		if ( !lvalue.isAtomicType() ) {
+			// release our reference
+			lvalue.assign(Runtime::Object());
+		}
+
+		return;
+	}
+
 	Runtime::Object obj;
 	tryControl(evaluate(node->mExpression, &obj));
 
-- 
2.43.0


From 33244e4acd57f60ca4b3fd1fd7d99a3cab24367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 52/75] fix: assign base objects to variables that refer to
 derived objects

---
 Projects/Core/Core/Runtime/OperatorOverloading.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index e7f9bdf..f2a822f 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -88,7 +88,8 @@ void operator_binary_assign( Object* lvalue, Object* rvalue )
 			return;
 		}
 
-		if ( rvalue->isInstanceOf( lvalue->QualifiedTypename() ) ) {
+		// the declared type decides what can be assigned (the lvalue may currently refer to an object of a derived type)
+		if ( rvalue->isInstanceOf( lvalue->QualifiedTypename() ) || rvalue->isInstanceOf( lvalue->QualifiedOuterface() ) ) {
 			lvalue->assign( *rvalue );
 			return;
 		}
-- 
2.43.0


From ce5a0f4230d9c23bfd0b4e845102a558f23cb86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 53/75] fix: reject erasing the element behind the last one

---
 Projects/Library/System/Collections/DoubleLinkedList.os | 2 +-
 Projects/Library/System/Collections/List.os             | 6 +++++-
 Projects/Library/System/Collections/Set.os              | 2 +-
 Projects/Library/System/Collections/Stack.os            | 2 +-
 Projects/Library/System/Collections/Vector.os           | 2 +-
 5 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index 8b94aa0..906203d 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -62,7 +62,7 @@ public object DoubleLinkedList<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/List.os b/Projects/Library/System/Collections/List.os
index d093366..c8605e6 100644
--- a/Projects/Library/System/Collections/List.os
+++ b/Projects/Library/System/Collections/List.os
@@ -59,12 +59,15 @@ public object List<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "erase index(" + index + ") out of bounds" );
 		}
 
 		if ( index == 0 ) {						// special handling for 1st element
 			mFirst = mFirst.next;
+			if ( mFirst ) {
+				mFirst.previous = CollectionItem<T> null;
+			}
 		}
 		else if ( index == mSize - 1 ) {		// special handling for last element
 			var prev = mFirst;
@@ -87,6 +90,7 @@ public object List<T> implements ICollection {
 			}
 			else if ( prev.next ) {
 				prev.next = prev.next.next;
+				prev.next.previous = prev;
 			}
 		}
 
diff --git a/Projects/Library/System/Collections/Set.os b/Projects/Library/System/Collections/Set.os
index d052a14..8b543d7 100644
--- a/Projects/Library/System/Collections/Set.os
+++ b/Projects/Library/System/Collections/Set.os
@@ -60,7 +60,7 @@ public object Set<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/Stack.os b/Projects/Library/System/Collections/Stack.os
index cd84331..b8f648c 100644
--- a/Projects/Library/System/Collections/Stack.os
+++ b/Projects/Library/System/Collections/Stack.os
@@ -59,7 +59,7 @@ public object Stack<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/Vector.os b/Projects/Library/System/Collections/Vector.os
index 88a10f4..a737b2c 100644
--- a/Projects/Library/System/Collections/Vector.os
+++ b/Projects/Library/System/Collections/Vector.os
@@ -59,7 +59,7 @@ public object Vector<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "erase index(" + index + ") beyond end of list" );
 		}
 
-- 
2.43.0


From a3887c66032ff26bcc15451da36653a02f1a347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 54/75] fix: keep first and last element of collections when
 removing elements

---
 .../Library/System/Collections/DoubleLinkedList.os    | 11 ++++++++++-
 Projects/Library/System/Collections/List.os           |  5 ++++-
 Projects/Library/System/Collections/Stack.os          |  3 ++-
 Projects/Library/System/Collections/Vector.os         |  2 +-
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index 906203d..24202ed 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -158,13 +158,15 @@ public object DoubleLinkedList<T> implements ICollection {
 
 		if ( mSize == 1 ) {
 			delete mFirst;
+			delete mLast;
 		}
 		else {
 			var item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
+			for ( int i = 0; i < mSize - 2; i++ ) {
 				item = item.next;
 			}
 
+			mLast = item;
 			delete item.next;
 		}
 
@@ -177,6 +179,9 @@ public object DoubleLinkedList<T> implements ICollection {
 		}
 
 		mFirst = mFirst.next;
+		if ( !mFirst ) {
+			delete mLast;
+		}
 
 		mSize--;
 	}
@@ -204,6 +209,10 @@ public object DoubleLinkedList<T> implements ICollection {
 		//mFirst.previous = item;	// this leaves a mem leak... ;-(
 		mFirst = item;
 
+		if ( mSize == 0 ) {
+			mLast = item;
+		}
+
 		mSize++;
 	}
 
diff --git a/Projects/Library/System/Collections/List.os b/Projects/Library/System/Collections/List.os
index c8605e6..cc701cb 100644
--- a/Projects/Library/System/Collections/List.os
+++ b/Projects/Library/System/Collections/List.os
@@ -163,7 +163,7 @@ public object List<T> implements ICollection {
 		}
 		else {					// generic handling
 			CollectionItem<T> item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
+			for ( int i = 0; i < mSize - 2; i++ ) {
 				item = item.next;
 			}
 
@@ -183,6 +183,9 @@ public object List<T> implements ICollection {
 		if ( !mFirst ) {
 			delete mLast;
 		}
+		else {
+			mFirst.previous = CollectionItem<T> null;
+		}
 
 		mSize--;
 	}
diff --git a/Projects/Library/System/Collections/Stack.os b/Projects/Library/System/Collections/Stack.os
index b8f648c..91cfccb 100644
--- a/Projects/Library/System/Collections/Stack.os
+++ b/Projects/Library/System/Collections/Stack.os
@@ -149,10 +149,11 @@ public object Stack<T> implements ICollection {
 
 		if ( mSize == 1 ) {
 			delete mFirst;
+			delete mLast;
 		}
 		else {
 			var item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
+			for ( int i = 0; i < mSize - 2; i++ ) {
 				item = item.next;
 			}
 
diff --git a/Projects/Library/System/Collections/Vector.os b/Projects/Library/System/Collections/Vector.os
index a737b2c..fa745e1 100644
--- a/Projects/Library/System/Collections/Vector.os
+++ b/Projects/Library/System/Collections/Vector.os
@@ -191,7 +191,7 @@ public object Vector<T> implements ICollection {
 		}
 		else {                                  // generic handling
 			var item = mFirst;
-			for ( int idx = 0; idx < mSize - 1; idx++ ) {
+			for ( int idx = 0; idx < mSize - 2; idx++ ) {
 				item = item.next;
 			}
 
-- 
2.43.0


From 6094c1f232a06d37372b5e1a8d1debda3076a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 55/75] fix: detect duplicates and update the last element of
 sets

---
 Projects/Library/System/Collections/Set.os | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Projects/Library/System/Collections/Set.os b/Projects/Library/System/Collections/Set.os
index 8b543d7..21b9b0b 100644
--- a/Projects/Library/System/Collections/Set.os
+++ b/Projects/Library/System/Collections/Set.os
@@ -167,15 +167,17 @@ public object Set<T> implements ICollection {
 			}
 
 			if ( !mAllowDuplicates ) {
-				if ( previous.next ) {
-					if ( item == previous.next ) {
-						throw new Exception( "duplicate item" );
-					}
+				if ( (T value) == (T previous.value) ) {
+					throw new Exception( "duplicate item" );
 				}
 			}
 
 			item.next = previous.next;
 			previous.next = item;
+
+			if ( !item.next ) {
+				mLast = item;
+			}
 		}
 
 		mSize++;
-- 
2.43.0


From 14f9b8b6ce9a17574a061ac99f60a176dd535f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 56/75] fix: do not share elements between copied collections

---
 .../System/Collections/DoubleLinkedList.os    | 18 ++++++++++++++++--
 Projects/Library/System/Collections/List.os   | 19 +++++++++++++++++--
 Projects/Library/System/Collections/Map.os    |  2 +-
 Projects/Library/System/Collections/Queue.os  |  2 +-
 Projects/Library/System/Collections/Set.os    | 18 ++++++++++++++++--
 Projects/Library/System/Collections/Stack.os  | 18 ++++++++++++++++--
 Projects/Library/System/Collections/Vector.os | 18 ++++++++++++++++--
 7 files changed, 83 insertions(+), 12 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index 24202ed..9e2abd0 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -22,8 +22,22 @@ public object DoubleLinkedList<T> implements ICollection {
 	public DoubleLinkedList<T> Copy() const {
 		var result = new DoubleLinkedList<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
+		// copy all items to prevent both collections from sharing them
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var node = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {
+				result.mFirst = node;
+			}
+			else {
+				result.mLast.next = node;
+			}
+
+			result.mLast = node;
+			item = item.next;
+		}
+
 		result.mSize = mSize;
 
 		return result;
diff --git a/Projects/Library/System/Collections/List.os b/Projects/Library/System/Collections/List.os
index cc701cb..dea1ac1 100644
--- a/Projects/Library/System/Collections/List.os
+++ b/Projects/Library/System/Collections/List.os
@@ -19,8 +19,23 @@ public object List<T> implements ICollection {
 	public List<T> Copy() const {
 		var result = new List<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
+		// copy all items to prevent both collections from sharing them
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var node = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {
+				result.mFirst = node;
+			}
+			else {
+				result.mLast.next = node;
+				node.previous = result.mLast;
+			}
+
+			result.mLast = node;
+			item = item.next;
+		}
+
 		result.mSize = mSize;
 
 		return result;
diff --git a/Projects/Library/System/Collections/Map.os b/Projects/Library/System/Collections/Map.os
index 881e2e2..2f01808 100644
--- a/Projects/Library/System/Collections/Map.os
+++ b/Projects/Library/System/Collections/Map.os
@@ -20,7 +20,7 @@ public object Map<K, V> implements ICollection {
 	public Map<K, V> Copy() const {
 		var result = new Map<K, V>();
 
-		result.mItems = mItems;
+		result.mItems = copy mItems;
 
 		return result;
 	}
diff --git a/Projects/Library/System/Collections/Queue.os b/Projects/Library/System/Collections/Queue.os
index 13c4dcd..f6c1c4d 100644
--- a/Projects/Library/System/Collections/Queue.os
+++ b/Projects/Library/System/Collections/Queue.os
@@ -19,7 +19,7 @@ public object Queue<T> implements ICollection {
 	public Queue<T> Copy() const {
 		var result = new Queue<T>();
 
-		result.mItems = mItems;
+		result.mItems = copy mItems;
 
 		return result;
 	}
diff --git a/Projects/Library/System/Collections/Set.os b/Projects/Library/System/Collections/Set.os
index 21b9b0b..fe34d1d 100644
--- a/Projects/Library/System/Collections/Set.os
+++ b/Projects/Library/System/Collections/Set.os
@@ -20,8 +20,22 @@ public object Set<T> implements ICollection {
 		var result = new Set<T>();
 
 		result.mAllowDuplicates = mAllowDuplicates;
-		result.mFirst = mFirst;
-		result.mLast = mLast;
+		// copy all items to prevent both collections from sharing them
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var node = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {
+				result.mFirst = node;
+			}
+			else {
+				result.mLast.next = node;
+			}
+
+			result.mLast = node;
+			item = item.next;
+		}
+
 		result.mSize = mSize;
 
 		return result;
diff --git a/Projects/Library/System/Collections/Stack.os b/Projects/Library/System/Collections/Stack.os
index 91cfccb..3cd74bc 100644
--- a/Projects/Library/System/Collections/Stack.os
+++ b/Projects/Library/System/Collections/Stack.os
@@ -19,8 +19,22 @@ public object Stack<T> implements ICollection {
 	public Stack<T> Copy() const {
 		var result = new Stack<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
+		// copy all items to prevent both collections from sharing them
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var node = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {
+				result.mFirst = node;
+			}
+			else {
+				result.mLast.next = node;
+			}
+
+			result.mLast = node;
+			item = item.next;
+		}
+
 		result.mSize = mSize;
 
 		return result;
diff --git a/Projects/Library/System/Collections/Vector.os b/Projects/Library/System/Collections/Vector.os
index fa745e1..57525d4 100644
--- a/Projects/Library/System/Collections/Vector.os
+++ b/Projects/Library/System/Collections/Vector.os
@@ -19,8 +19,22 @@ public object Vector<T> implements ICollection {
 	public Vector<T> Copy() const {
 		var result = new Vector<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
+		// copy all items to prevent both collections from sharing them
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var node = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {
+				result.mFirst = node;
+			}
+			else {
+				result.mLast.next = node;
+			}
+
+			result.mLast = node;
+			item = item.next;
+		}
+
 		result.mSize = mSize;
 
 		return result;
-- 
2.43.0


From 10b6d79dd5650b80ddf349455e6aa8ff2fd04547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 57/75] fix: index and boundary elements of maps

---
 Projects/Library/System/Collections/Map.os | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Projects/Library/System/Collections/Map.os b/Projects/Library/System/Collections/Map.os
index 2f01808..a1ffd82 100644
--- a/Projects/Library/System/Collections/Map.os
+++ b/Projects/Library/System/Collections/Map.os
@@ -44,7 +44,7 @@ public object Map<K, V> implements ICollection {
 	}
 
 	public V first() const throws {
-		return V mItems.first();
+		return ( Pair<K, V> mItems.first() ).second;
 	}
 
 	public V get( K key const ) const throws {
@@ -84,6 +84,8 @@ public object Map<K, V> implements ICollection {
 			if ( ( Pair<K, V> p ) == key ) {
 				return count;
 			}
+
+			count++;
 		}
 
 		return -1;
@@ -94,7 +96,7 @@ public object Map<K, V> implements ICollection {
 	}
 
 	public V last() const throws {
-		return V mItems.last();
+		return ( Pair<K, V> mItems.last() ).second;
 	}
 
 	public void put( K key, V value ) modify throws {
-- 
2.43.0


From d258490c10cad86fc94620f3844b1695e34e77bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 58/75] fix: peek returns the next element of a queue

---
 Projects/Library/System/Collections/Queue.os | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Library/System/Collections/Queue.os b/Projects/Library/System/Collections/Queue.os
index f6c1c4d..2f61104 100644
--- a/Projects/Library/System/Collections/Queue.os
+++ b/Projects/Library/System/Collections/Queue.os
@@ -73,8 +73,8 @@ public object Queue<T> implements ICollection {
 }
 */
 
-	public T peek() const {
-		return mItems.last();
+	public T peek() const throws {
+		return mItems.first();
 	}
 
 	public int size() const {
-- 
2.43.0


From 31ad3b16c106a9252619f9e22175181af8961cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:08 +0000
Subject: [PATCH 59/75] fix: start reverse iteration at the last element

---
 .../System/Collections/DoubleLinkedIterator.os        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedIterator.os b/Projects/Library/System/Collections/DoubleLinkedIterator.os
index ab54597..ec79c78 100644
--- a/Projects/Library/System/Collections/DoubleLinkedIterator.os
+++ b/Projects/Library/System/Collections/DoubleLinkedIterator.os
@@ -159,7 +159,12 @@ public object ReverseIterator<T> {
 			throw new OutOfBoundsException( "next(): index out of bounds" );
 		}
 
-		mCurrentItem = mCurrentItem.previous;
+		if ( !mCurrentItem ) {
+			mCurrentItem = mLastItem;
+		}
+		else {
+			mCurrentItem = mCurrentItem.previous;
+		}
 
 		return T mCurrentItem.value;
 	}
@@ -172,12 +177,12 @@ public object ReverseIterator<T> {
 		var tmpItem = mCurrentItem;
 
 		if ( offset > 0 ) {
-			while ( offset-- > 0 ) {
+			while ( offset-- >= 0 ) {
 				tmpItem = tmpItem.previous;
 			}
 		}
 		else if ( offset < 0 ) {
-			while ( offset++ < 0 ) {
+			while ( offset++ <= 0 ) {
 				tmpItem = tmpItem.next;
 			}
 		}
-- 
2.43.0


From 67e095de4f69b9adf1d53ebb3473af85ef5e44c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:48:05 +0000
Subject: [PATCH 60/75] fix: keep the access mode of parameters whose type is a
 type parameter

---
 Projects/Core/Core/Common/Method.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/Projects/Core/Core/Common/Method.cpp b/Projects/Core/Core/Common/Method.cpp
index f7ae67d..42993dd 100644
--- a/Projects/Core/Core/Common/Method.cpp
+++ b/Projects/Core/Core/Common/Method.cpp
@@ -179,8 +179,6 @@ void Method::initialize(const PrototypeConstraints& constraints)
 
 	// Update method signature
 	// {
-	auto atomicTypes = provideAtomicTypes();
-
 	for ( auto& paramIt : mSignature ) {
 		// look up parameter type in object-wide prototype constraints
 		type = constraints.lookupType(paramIt.type());
@@ -191,18 +189,12 @@ void Method::initialize(const PrototypeConstraints& constraints)
 		}
 
 		if ( paramIt.type() != type ) {
-			AccessMode::E access = AccessMode::ByValue;
-
-			if ( atomicTypes.find(type) == atomicTypes.end() ) {
-				access = AccessMode::ByReference;
-			}
-
 			paramIt = Parameter::CreateDesigntime(paramIt.name(),
 													 TypeDeclaration(type, PrototypeConstraints(), paramIt.mutability()),
 													 paramIt.value(),
 													 paramIt.hasDefaultValue(),
 													 paramIt.mutability(),
-													 access);
+													 paramIt.access());
 		}
 	}
 	// }
-- 
2.43.0


From 4a2da4d94a9d917151829fb0d16bcce154550a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:48:05 +0000
Subject: [PATCH 61/75] fix: catch exceptions of generic types by their full
 type name

---
 Projects/Core/Core/AST/TreeGenerator.cpp   | 2 +-
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 24eaefe..cbf754e 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2108,7 +2108,7 @@ Statement* TreeGenerator::process_try(TokenIterator& token)
 				++tmp;
 
 				// remove caught exception from list of not-caught exceptions
-				mThrownExceptions.erase(typeDeclaration->mType);
+				mThrownExceptions.erase(Designtime::Parser::buildRuntimeConstraintTypename(typeDeclaration->mType, typeDeclaration->mConstraints));
 			}
 			else {
 				// this is a catch block without an exception type (= a "catch all"-block), so we have to clear all exceptions
diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 4ec36f3..da18ad1 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1373,7 +1373,7 @@ void TreeInterpreter::visitTry(TryStatement* node)
 		// determine correct catch-block (if a correct one exists)
 		for ( auto& stmt : node->mCatchStatements ) {
 			// check if we have a catch-block with a given type that matches the thrown exception type
-			if ( stmt->mTypeDeclaration && !(exception && exception->isInstanceOf(stmt->mTypeDeclaration->mType)) ) {
+			if ( stmt->mTypeDeclaration && !(exception && exception->isInstanceOf(Designtime::Parser::buildRuntimeConstraintTypename(stmt->mTypeDeclaration->mType, stmt->mTypeDeclaration->mConstraints))) ) {
 				// exception type does not match
 				continue;
 			}
-- 
2.43.0


From 5239957ee30e38cd82b435f2076069f2501c45d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:48:05 +0000
Subject: [PATCH 62/75] fix: let string members of generic objects start empty

---
 Projects/Core/Core/Designtime/BluePrintObject.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index f0b4e92..8a72de0 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -163,6 +163,11 @@ BluePrintObject* BluePrintObject::fromPrototype(const PrototypeConstraints& cons
 		else {
 			const std::string& type = constraints.lookupType(blue->QualifiedTypename());
 
+			if ( type == _string && type != blue->QualifiedTypename() ) {
+				// the initial value of a string is an empty text
+				blue->setValue(Runtime::AtomicValue(std::string(VALUE_NONE)));
+			}
+
 			blue->setPrototypeConstraints(PrototypeConstraints());
 			blue->setQualifiedTypename(type);
 		}
-- 
2.43.0


From da3e6b5da7c44507b461502f39a7b64d280ac015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:31 +0000
Subject: [PATCH 63/75] fix: accept indirectly derived types for constrained
 type parameters

---
 .../Core/Core/VirtualMachine/Repository.cpp   | 29 ++++++++++++++++++-
 .../Core/Core/VirtualMachine/Repository.h     |  2 ++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 2325fee..d310c09 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -3,6 +3,8 @@
 #include "Repository.h"
 
 // Library includes
+#include <list>
+#include <set>
 
 // Project includes
 #include <Core/AST/TreeGenerator.h>
@@ -69,7 +71,7 @@ Designtime::BluePrintObject* Repository::createBluePrintFromPrototype(Designtime
 		if ( !generic ) {
 			throw Common::Exceptions::UnknownIdentifier(constIt->mRunType + " is unknown");
 		}
-		if ( !constIt->mConstraint.empty() && generic->QualifiedTypename() != constIt->mConstraint && !generic->inheritsFrom(constIt->mConstraint) ) {
+		if ( !constIt->mConstraint.empty() && generic->QualifiedTypename() != constIt->mConstraint && !inheritsFrom(generic, constIt->mConstraint) ) {
 			throw Common::Exceptions::TypeMismatch(constIt->mRunType + " is no or does not inherit from " + constIt->mConstraint);
 		}
 
@@ -264,6 +266,31 @@ Runtime::Object* Repository::createReference(Designtime::BluePrintObject* bluepr
 	return object;
 }
 
+/*
+ * checks if a type inherits directly or indirectly from another type
+ */
+bool Repository::inheritsFrom(const Designtime::BluePrintObject* blueprint, const std::string& type) const
+{
+	std::list<const Designtime::BluePrintObject*> types(1, blueprint);
+	std::set<std::string> visited;	// circular inheritance might not have been detected, yet
+
+	for ( const auto* current : types ) {
+		if ( current->inheritsFrom(type) ) {
+			return true;
+		}
+
+		for ( const auto& ancestor : current->getInheritance() ) {
+			const auto* parent = findBluePrintObject(ancestor.name());
+
+			if ( parent && visited.insert(ancestor.name()).second ) {
+				types.push_back(parent);
+			}
+		}
+	}
+
+	return false;
+}
+
 /*
  * creates and initializes a user defined object type and initializes its base classes
  */
diff --git a/Projects/Core/Core/VirtualMachine/Repository.h b/Projects/Core/Core/VirtualMachine/Repository.h
index f3435e9..93a143f 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.h
+++ b/Projects/Core/Core/VirtualMachine/Repository.h
@@ -71,6 +71,8 @@ private:
 	Runtime::Object* createObject(const std::string& name, Designtime::BluePrintObject* blueprint, InitilizationType::E initialize);
 	Runtime::Object* createUserType(const std::string& name, Designtime::BluePrintObject* blueprint, InitilizationType::E initialize);
 
+	bool inheritsFrom(const Designtime::BluePrintObject* blueprint, const std::string& type) const;
+
 	void initBluePrintObject(Designtime::BluePrintObject* blueprint);
 	void initTypeSystem(Designtime::BluePrintObject* blueprint);
 
-- 
2.43.0


From 7e31955e00cd22bc7265ab61749b4be938140a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:15 +0000
Subject: [PATCH 64/75] fix: let EndsWith answer false for longer texts

---
 Projects/Library/System/String.os | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 0fd9697..e437671 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -91,7 +91,9 @@ public object String implements IIterable {
 	 * Returns true if the held string ends with the given string
 	 */
 	public bool EndsWith( string str ) const {
-		return str == substr( mValue, strlen( mValue ) - strlen( str ) );
+		int position = mSize - strlen( str );
+
+		return position >= 0 && str == substr( mValue, position );
 	}
 
 	/*
-- 
2.43.0


From 07f27e07ba8cc3c21f1fe458e6145b67cf2c6f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:15 +0000
Subject: [PATCH 65/75] fix: do not search replaced text again in ReplaceAll

---
 Projects/Library/System/String.os | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index e437671..9cde44e 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -154,12 +154,23 @@ public object String implements IIterable {
 	 * Replaces all occurrences of a given string with a new string
 	 */
 	public bool ReplaceAll( string oldStr, string newStr ) modify {
+		if ( oldStr == "" ) {
+			return false;
+		}
+
 		bool hasFound = false;
+		int position = 0;
+
+		while ( ( position = strfind( mValue, oldStr, position ) ) >= 0 ) {
+			mValue = substr( mValue, 0, position ) + newStr + substr( mValue, position + strlen( oldStr ) );
 
-		while ( Replace( oldStr, newStr ) ) {
+			// continue behind the replacement
+			position += strlen( newStr );
 			hasFound = true;
 		}
 
+		mSize = strlen( mValue );
+
 		return hasFound;
 	}
 
-- 
2.43.0


From e27a75ea52c28b953a578b555fc5333f073578f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:15 +0000
Subject: [PATCH 66/75] fix: return the characters between two indices of a
 String

---
 Projects/Library/System/String.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 9cde44e..500da1a 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -443,7 +443,7 @@ public object String implements IIterable {
 	 * Returns the substring between given indices
 	 */
 	public string operator[]( int first, int last ) const throws {
-		if ( mSize >= first && mSize <= last - first ) {
+		if ( first >= 0 && first <= last && last <= mSize ) {
 			return substr( mValue, first, last - first );
 		}
 
-- 
2.43.0


From af24f366487e820841226ab944c52696bc4c9424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:15 +0000
Subject: [PATCH 67/75] fix: update the length of a String when text is
 appended

---
 Projects/Library/System/String.os | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 500da1a..8d64d4a 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -383,6 +383,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( string other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -392,6 +393,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( bool other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -401,6 +403,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( double other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -410,6 +413,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( float other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -419,6 +423,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( int other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -428,6 +433,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( String other const ) modify {
 		mValue += other.mValue;
+		mSize = strlen( mValue );
 
 		return this;
 	}
-- 
2.43.0


From 3307c32bd45bbae46c2b7649da778e4b0c91338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:15 +0000
Subject: [PATCH 68/75] fix: end the iteration over characters at the last one

---
 Projects/Library/System/CharacterIterator.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/System/CharacterIterator.os b/Projects/Library/System/CharacterIterator.os
index 32058e2..08b2399 100644
--- a/Projects/Library/System/CharacterIterator.os
+++ b/Projects/Library/System/CharacterIterator.os
@@ -47,7 +47,7 @@ public object CharacterIterator implements Iterator<string> {
 	 * returns true if the iteration did not reach the end of the held string value
 	 */
 	public bool hasNext() const {
-		return mCurrentIndex < mLength;
+		return mCurrentIndex + 1 < mLength;
 	}
 
 	/*
-- 
2.43.0


From 8846af80c7c35935cd22e573bc35f48e963df961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:30:57 +0000
Subject: [PATCH 69/75] fix: call operators of objects that are intermediate
 results

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 36 ++++++++++++++++++++++++
 Projects/Core/Core/AST/TreeGenerator.h   |  1 +
 2 files changed, 37 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index cbf754e..6787848 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -391,6 +391,10 @@ Node* TreeGenerator::parseExpression(TokenIterator& start)
 
 		auto* exp = dynamic_cast<SymbolExpression*>(expr);
 
+		if ( auto* temporary = exp ? nullptr : process_temporary_operator(expr, operation, rhs) ) {
+			expr = temporary;
+			continue;
+		}
 		if ( !exp || exp->isAtomicType() ) {
 			expr = new BinaryExpressionOwner(expr, operation, right, type);
 			continue;
@@ -439,6 +443,10 @@ Node* TreeGenerator::parseFactor(TokenIterator &start)
 
 		auto* exp = dynamic_cast<SymbolExpression*>(factor);
 
+		if ( auto* temporary = exp ? nullptr : process_temporary_operator(factor, operation, rhs) ) {
+			factor = temporary;
+			continue;
+		}
 		if ( !exp || exp->isAtomicType() ) {
 			factor = new BinaryExpressionOwner(factor, operation, right, type);
 			continue;
@@ -1630,6 +1638,34 @@ Statement* TreeGenerator::process_keyword(TokenIterator& token)
  * syntax:
  * <type> <identifier>(<parameter list>);
  */
+// operator of an object that is the result of an expression, returns null if the result is not an object with such an operator
+Expression* TreeGenerator::process_temporary_operator(Node* left, const Token& operation, Expression* rhs)
+{
+	auto* lhs = dynamic_cast<Expression*>(left);
+
+	Designtime::BluePrintObject* blueprint = mRepository->findBluePrintObject(lhs->getResultType());
+	if ( !blueprint || blueprint->isAtomicType() ) {
+		return nullptr;
+	}
+
+	ParameterList params;
+	params.emplace_back(Parameter::CreateDesigntime(ANONYMOUS_OBJECT, Common::TypeDeclaration(rhs->getResultType())));
+
+	if ( !blueprint->resolveMethod("operator" + operation.content(), params, false) ) {
+		return nullptr;
+	}
+
+	auto* symbol = new DesigntimeSymbolExpression("operator" + operation.content(), rhs->getResultType(), PrototypeConstraints(), false);
+	symbol->mSurroundingScope = blueprint;
+
+	ExpressionList expressions;
+	expressions.emplace_back(rhs);
+
+	auto* method = process_method(symbol, operation, expressions);
+
+	return new ScopeExpression(lhs, method, method->getResultType());
+}
+
 MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, TokenIterator& token)
 {
 	const Token start = (*token);
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index 4b980a2..7501954 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -94,6 +94,7 @@ private: // Execution
 	Statement* process_if(TokenIterator& token);
 	Expression* process_incdecrement(TokenIterator& token, Expression* lhs);
 	Statement* process_keyword(TokenIterator& token);
+	Expression* process_temporary_operator(Node* left, const Token& operation, Expression* rhs);
 	MethodExpression* process_method(SymbolExpression* symbol, TokenIterator& token);
 	MethodExpression* process_method(SymbolExpression* symbol, const Token& token, const ExpressionList& expressions);
 	Expression* process_new(TokenIterator& token);
-- 
2.43.0


From 8798105ba38142f6cc7e1c0c8b8a2e9c720ba956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:30:57 +0000
Subject: [PATCH 70/75] fix: use the conversion operator when an object is
 assigned to an atomic variable

---
 Projects/Core/Core/Runtime/OperatorOverloading.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index f2a822f..4f44c8f 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -41,6 +41,10 @@ void operator_binary_assign( Object* lvalue, Object* rvalue )
 		// or no type conversion is necessary
 		lvalue->assign( *rvalue );
 	}
+	else if ( lvalue->isAtomicType() && rvalue->isValid() && !rvalue->isAtomicType() && !rvalue->isEnumerationValue() ) {
+		// an object is converted by its conversion operator
+		lvalue->Object::operator_assign( rvalue );
+	}
 	else if ( target == BoolType::TYPENAME ) {
 		lvalue->assign( BoolType( rvalue->getValue().toBool() ) );
 	}
-- 
2.43.0


From c3b925ac294b1b6cea54f7bd30c1561b6e4c12ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:30:57 +0000
Subject: [PATCH 71/75] fix: reject parameters that are not separated by a
 comma

---
 Projects/Core/Core/Designtime/Parser/Parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Parser.cpp b/Projects/Core/Core/Designtime/Parser/Parser.cpp
index 010e6c7..c3efc43 100644
--- a/Projects/Core/Core/Designtime/Parser/Parser.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Parser.cpp
@@ -526,6 +526,8 @@ ParameterList Parser::parseParameters(TokenIterator& token, IScope* scope)
 		if ( token->type() == Token::Type::PARENTHESIS_CLOSE ) {
 			break;
 		}
+
+		expect(Token::Type::COMMA, token);
 	}
 
 	expect(Token::Type::PARENTHESIS_CLOSE, token);
-- 
2.43.0


From 7e2842a5695c39d9364e34e4fdb0048aac2a443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:32:20 +0000
Subject: [PATCH 72/75] fix: protect const members of object type from
 assignments

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 6787848..40b4725 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2438,7 +2438,10 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 				symbol = new DesigntimeSymbolExpression(name, type, constraints, mMethod->isConstMethod(), true, false);
 			}
 			else {
-				symbol = new DesigntimeSymbolExpression(name, type, constraints, bpo->isMember() && bpo->isConst() && blueprint->isAtomicType(), false, blueprint->isAtomicType());
+				// const members of object type cannot be assigned, but the object they refer to can be used without restrictions
+				const bool isProtected = blueprint->isAtomicType() || token->category() == Token::Category::Assignment;
+
+				symbol = new DesigntimeSymbolExpression(name, type, constraints, bpo->isMember() && bpo->isConst() && isProtected, false, blueprint->isAtomicType());
 			}
 			//symbol = new DesigntimeSymbolExpression(name, type, constraints, bpo->isConst(), bpo->isMember(), blueprint->isAtomicType());
 		} break;
-- 
2.43.0


From 4221ee628d5b3e3101b1a1c913313d7191931492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:38:00 +0000
Subject: [PATCH 73/75] fix: apply compound assignments to members with user
 defined operators

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 40b4725..a775910 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1044,8 +1044,17 @@ Expression* TreeGenerator::process_assignment_expression(TokenIterator& token, S
 
 			SymbolExpression* sym = new DesigntimeSymbolExpression(lhs->mName, lhs->getResultType(), PrototypeConstraints(), false);
 			sym->mSurroundingScope = lhs->mSurroundingScope;
-			sym->mSymbolExpression = new DesigntimeSymbolExpression("operator" + operation.content(), resolveType(token, lhs, operation, rhs), PrototypeConstraints(), false);
-			sym->mSymbolExpression->mSurroundingScope = blueprint;
+
+			// the operator belongs to the last symbol of the chain
+			SymbolExpression* last = sym;
+			for ( const auto* it = lhs->mSymbolExpression; it; it = it->mSymbolExpression ) {
+				last->mSymbolExpression = new DesigntimeSymbolExpression(it->mName, it->getResultType(), PrototypeConstraints(), false);
+				last->mSymbolExpression->mSurroundingScope = it->mSurroundingScope;
+				last = last->mSymbolExpression;
+			}
+
+			last->mSymbolExpression = new DesigntimeSymbolExpression("operator" + operation.content(), resolveType(token, lhs, operation, rhs), PrototypeConstraints(), false);
+			last->mSymbolExpression->mSurroundingScope = blueprint;
 
 			ExpressionList params;
 			params.emplace_back(rhs);
-- 
2.43.0


From ba43374030ab04a92963d0b179aa062f78e714a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:38:00 +0000
Subject: [PATCH 74/75] fix: allow references to the own object in destructors

---
 Projects/Core/Core/VirtualMachine/Memory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index d73de22..847a671 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -77,6 +77,9 @@ void Memory::deleteObject(const Runtime::Reference& ref)
 
 	// delete it if it's valid ...
 	if ( it->second.mObject ) {
+		// the destructor may use references to its own object, releasing them must not destroy it again
+		it->second.mCount++;
+
 		it->second.mObject->Destructor();
 
 		delete it->second.mObject;
-- 
2.43.0


From 67dc0966f63998d8d3135fcc9b21587ae972ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:38:00 +0000
Subject: [PATCH 75/75] fix: let this refer to the whole object in inherited
 methods

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 11 ++++++++++-
 Projects/Core/Core/Object.cpp              |  6 ++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index da18ad1..e5e9559 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -475,7 +475,16 @@ void TreeInterpreter::evaluateSymbolExpression(SymbolExpression *exp, Runtime::O
 		throw Runtime::Exceptions::RuntimeException("invalid lvalue symbol type");
 	}
 
-	*result = *dynamic_cast<Runtime::Object*>(lvalue);
+	const auto* object = dynamic_cast<Runtime::Object*>(lvalue);
+
+	*result = *object;
+
+	// the "this" of an inherited method is only a part of the object it belongs to
+	const auto* whole = exp->mName == IDENTIFIER_THIS ? Controller::Instance().memory()->get(object->getReference()) : nullptr;
+	if ( whole && whole != object ) {
+		*result = *whole;
+		result->setQualifiedOuterface(object->QualifiedOuterface());
+	}
 }
 
 void TreeInterpreter::evaluateTernaryExpression(TernaryExpression* exp, Runtime::Object* result)
diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 78c602c..9405c99 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -590,6 +590,12 @@ void Object::setReference(const Reference& reference)
 {
 	mIsReference = true;
 	mReference = reference;
+
+	// our base object is a part of us, so a "this" in its methods refers to us as well
+	auto* base = dynamic_cast<Object*>(MethodScope::resolve(IDENTIFIER_BASE, true, Visibility::Designtime));
+	if ( base ) {
+		base->setReference(reference);
+	}
 }
 
 void Object::setValue(const AtomicValue& value)
-- 
2.43.0

